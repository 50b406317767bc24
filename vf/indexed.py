"""One-dimensional arrays and ranges of arbitrary length n given by their element as a function of the index.

np.linspace, np.arange, range, zeros, ... with a symbolic number of points give an Indexed; slices of it, differences and
elementwise operations are again functions of the index.  A loop or comprehension over it (or over zip, enumerate, range)
runs its body once, for an arbitrary index k with 0 <= k < n; this is the rule for a loop that carries nothing from one
round to the next, so a loop whose byte code carries a variable is not supported.  The list such a loop leaves behind has one
element, which stands for the k-th of n; `each` gives it to a contract, with k and n.  Loops over the same number of rounds share
their k: element k of one list belongs to element k of the other (zip).  Every other use is not supported: undecided, never an alarm."""
import numbers
import sys

import numpy as np

from . import sym as S
from . import terms as T
from .sym import Sym, SymArray, SymLen, Unsupported


def linear(x):
    """{variable node or None: coefficient} of an integer expression; None: not linear"""
    if isinstance(x, (numbers.Integral, np.integer)) and not isinstance(x, bool):
        return {None: int(x)}
    n = getattr(x, "node", x)
    if not isinstance(n, T.Node):
        return None
    if n.op == "c":
        return {None: n.pl[0]} if n.real and n.pl[0].denominator == 1 else None
    if n.op == "v":
        return {n: 1} if str(n.pl[1]).startswith("int:") else None
    if n.op == "add":
        r = {}
        for y in n.args:
            l = linear(y)
            if l is None:
                return None
            for v, c in l.items():
                r[v] = r.get(v, 0) + c
        return r
    if n.op == "mul":
        ls = [linear(y) for y in n.args]
        if any(l is None for l in ls):
            return None
        r = {None: 1}
        for l in ls:
            if set(r) <= {None}:
                r = {v: c * r.get(None, 0) for v, c in l.items()}
            elif set(l) <= {None}:
                r = {v: c * l.get(None, 0) for v, c in r.items()}
            else:
                return None
        return r
    return None


def norm(x):
    """a linear integer expression in its simplest form"""
    l = linear(x)
    if l is None:
        return x
    c = int(l.pop(None, 0))
    l = {v: k for v, k in l.items() if k}
    if not l:
        return c
    r = None
    for v in sorted(l, key=lambda v: v.id):
        t = v if l[v] == 1 else T.mul(T.const(l[v]), v)
        r = t if r is None else T.add(r, t)
    if c:
        r = T.add(r, T.const(c))
    return Sym(r, "i")


def add(a, b):
    return norm(S.binary("add", a, b)) if isinstance(a, Sym) or isinstance(b, Sym) else a + b


def sub(a, b):
    return norm(S.binary("subtract", a, b)) if isinstance(a, Sym) or isinstance(b, Sym) else a - b


def _z3(l, zv):
    import z3
    r = z3.IntVal(0)
    for v, c in l.items():
        r = r + (int(c) if v is None else int(c) * zv.setdefault(v.id, z3.Int(f"i{v.id}")))
    return r


def _facts(run, zv):
    import z3
    out = []
    for f in run.facts():
        neg = f.op == "not"
        g = f.args[0] if neg else f
        if g.op != "cmp":
            continue
        l, r = linear(g.args[0]), linear(g.args[1])
        if l is None or r is None:
            continue
        x, y = _z3(l, zv), _z3(r, zv)
        q = x < y if g.pl == "<" else x <= y if g.pl == "<=" else x == y
        out.append(z3.Not(q) if neg else q)
    return out


def decide(op, a, b):
    """comparison of integer expressions; a case distinction where it is open"""
    d = sub(a, b)
    if not isinstance(d, Sym):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
    l = linear(d)
    if l is None:
        return bool(S.binary({"<": "less", "<=": "less_equal", "==": "equal"}[op], a, b))
    import z3
    run, zv = S.Hooks.run, {}
    x = _z3(l, zv)
    q = x < 0 if op == "<" else x <= 0 if op == "<=" else x == 0
    s = z3.Solver()
    s.add(*_facts(run, zv))
    t, f = s.check(q) != z3.unsat, s.check(z3.Not(q)) != z3.unsat
    if t and f:
        c = run.choose_index(f"case {len(run.taken)}", 2) == 0
        g = T.cmp(op, T.lift(d.node), T.ZERO)
        run.assume_node(g if c else T.bnot(g))
        return c
    return bool(t)


def eq(a, b):
    return a is b or decide("==", a, b)


def follows(op, a, b):
    """the comparison of integer expressions follows from the conditions of the path"""
    l = linear(sub(a, b)) if isinstance(sub(a, b), Sym) else {None: sub(a, b)}
    if l is None:
        return False
    import z3
    zv = {}
    x = _z3(l, zv)
    s = z3.Solver()
    s.add(*_facts(S.Hooks.run, zv))
    s.add(z3.Not(x < 0 if op == "<" else x <= 0 if op == "<=" else x == 0))
    return s.check() == z3.unsat


def less(a, b):
    return decide("<", a, b)


class Index:
    """the arbitrary index of the loops with n rounds"""

    family = None

    def __init__(self, n):
        self.n = n
        v = T.rvar(f"int:k{len(S.INDICES)}")
        run = S.Hooks.run
        run.add_base(T.cmp("<=", T.lift(0), v))
        last = sub(n, 1)
        run.add_base(T.cmp("<=", v, T.lift(getattr(last, "node", last))))
        run.nonneg.add(v.id)
        self.k = Sym(v, "i")
        self.atoms = {v.id}


def index(n):
    for q in S.INDICES:
        if q.n is n or eq(q.n, n):
            return q
    q = Index(n)
    S.INDICES.append(q)
    return q


def nodes(x):
    if isinstance(x, (list, tuple)):
        return [n for y in x for n in nodes(y)]
    if isinstance(x, dict):
        return [n for y in x.values() for n in nodes(y)]
    if isinstance(x, (Generic, Indexed)):
        return []
    try:
        a = S.parts(x)[0]
    except Unsupported:
        return []
    return [n for n in a.flat if isinstance(n, T.Node)]


def loose(x):
    """the index on which x depends (None: on none)"""
    ns = nodes(x)
    if not ns:
        return None
    ids = {n.id for n in T.walk(ns)}
    for q in S.INDICES:
        if ids & q.atoms:
            return q
    return None


def depends(v, on):
    """v is an arbitrary value for every index on which `on` depends"""
    q = loose(on)
    if q is not None:
        q.atoms |= {n.id for n in nodes(v)}
    return v


class Family:
    """an arbitrary function of the index: make(j) draws the values (a tuple) for one more index"""

    def __init__(self, n, make):
        self.n, self.make, self.memo = n, make, []

    def __deepcopy__(self, memo):
        return self

    def at(self, k):
        run = S.Hooks.run
        for q, v in self.memo:
            if q is k or run.quick_zero(T.sub(T.lift(getattr(q, "node", q)), T.lift(getattr(k, "node", k)))):
                return v
        v = self.make(len(self.memo))
        self.memo.append((k, v))
        return v

    def generic(self):
        """the values at the arbitrary index of a loop of n rounds"""
        q = index(self.n)
        v = self.at(q.k)
        q.family = self
        for n in nodes(list(v)):
            q.atoms |= {m.id for m in T.walk([n]) if m.op == "v"} - self.shared(v)
        return v

    def shared(self, v):
        """variables that occur in the values for other indices as well"""
        other = [m.id for k, w in self.memo if w is not v for m in T.walk(nodes(list(w))) if m.op == "v"]
        return set(other)


def at_index(item, q):
    """item, known for the index q.k of a loop, as a function of the index"""
    fam = q.family

    def at(k):
        if k is q.k:
            return item
        table = {q.k.node.id: T.lift(getattr(k, "node", k))}
        if fam is not None:
            for a, b in zip(nodes(list(fam.at(q.k))), nodes(list(fam.at(k)))):
                if a.op == "v":
                    table[a.id] = b
        elif len(q.atoms) > 1:
            raise Unsupported("another element of a list of arbitrary length")
        a, d, kind, m = S.parts(item)
        out = T.subst(list(a.flat), lambda n: table.get(n.id))
        left = {n.id for n in T.walk(out)} & q.atoms - {b.id for b in table.values()}
        if left - {n.id for n in T.walk(list(table.values()))}:
            raise Unsupported("another element of a list of arbitrary length")
        b = np.empty(a.shape, dtype=object)
        for i, v in zip(np.ndindex(a.shape), out):
            b[i] = v
        return Sym(b[()], kind) if isinstance(item, Sym) else S.mk(b, d, kind)
    return at


def from_item(item):
    """np.array of the list a loop leaves behind; None: it is an ordinary list"""
    q = loose(item)
    if q is None:
        return None
    return Indexed(q.n, at_index(item, q), S.kind_of(item), item if isinstance(item, SymArray) else None)


class Star:
    """an argument list *seq of unknown length"""

    def __init__(self, item, q):
        self.item, self.q = item, q


class Generic:
    """n elements of which the k-th is known"""
    __hash__ = None

    def __init__(self, n, element):
        self.n, self.element = n, element      # element() is called with the index k of the loop

    def _vf_len(self):
        return self.n

    family = None

    def items(self):
        """what a list of it holds"""
        if less(self.n, 1):
            return []
        q = index(self.n)
        if self.family is not None:
            self.family.generic()
        return [self.element(q.k)]

    def __iter__(self):
        from .stack import loop_body, instruction
        frame = sys._getframe(1)
        if instruction(frame) == "CALL_FUNCTION_EX":
            return iter([Star(x, index(self.n)) for x in self.items()])
        carried = [v for v in loop_body(frame) if v in frame.f_locals]
        if carried and S.Hooks.loop is not None:
            return S.Hooks.loop.enter(self, frame, carried)
        for v in carried:
            raise Unsupported(f"the loop over an arbitrary number of rounds carries {v} from round to round")
        return iter(self.items())

    def _no(self, *a, **k):
        raise Unsupported("operation on arbitrarily many elements")

    __getitem__ = __reversed__ = __contains__ = __eq__ = __bool__ = _no


class Indexed(Generic):
    _vf_split = True       # numpy functions come to _np
    _vf_index = True
    __array_ufunc__ = None

    def __init__(self, n, at, kind="f", like=None):
        """like: an element (its rank and shape are those of all); None: numbers"""
        self.n, self.at, self.kind, self.like = n, at, kind, like

    @property
    def rank(self):
        return self.like.ndim if isinstance(self.like, SymArray) else 0

    @property
    def ndim(self):
        return 1 + self.rank

    def element(self, k):
        return self.at(k)

    @property
    def shape(self):
        return (self.n,) + (tuple(self.like.shape) if self.rank else ())

    @property
    def T(self):
        if self.rank:
            raise Unsupported("transpose of an array of arbitrary length")
        return self

    @property
    def size(self):
        if self.rank:
            raise Unsupported("size of an array of arbitrary length")
        return self.n

    @property
    def real(self):
        return self.map(lambda v: S.unary("real", v), "f" if self.kind == "c" else self.kind)

    @property
    def imag(self):
        return self.map(lambda v: S.unary("imag", v), "f" if self.kind == "c" else self.kind)

    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": int, "f": float, "c": complex}[self.kind])

    def copy(self, *a):
        return Indexed(self.n, self.at, self.kind, self.like)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        k = S.kind_of_dtype(dt)
        at = self.at
        return Indexed(self.n, lambda i: S.cast(at(i), k), k, self.like)

    def tolist(self):
        return self.items()

    def _bound(self, v, default):
        n = self.n
        if v is None:
            return default
        if not isinstance(v, (numbers.Integral, Sym)):
            raise Unsupported("slice bound")
        if less(v, 0):
            v = add(n, v)
            return 0 if less(v, 0) else v
        return n if less(n, v) else v

    def __getitem__(self, i):
        at, n = self.at, self.n
        if isinstance(i, tuple):
            if Ellipsis in [x for x in i if x is Ellipsis]:
                p = next(j for j, x in enumerate(i) if x is Ellipsis)
                used = sum(1 for x in i if x is not None and x is not Ellipsis)
                i = i[:p] + (slice(None),) * (self.ndim - used) + i[p + 1:]
            if not i or i[0] is None:
                raise Unsupported("index of an array of arbitrary length")
            first, rest = self[i[0]], i[1:]
            if not isinstance(first, Indexed):
                return first[rest] if isinstance(first, SymArray) else S.mk(np.array([T.lift(first.node)], dtype=object), (None,), first.kind)[rest]
            if all(isinstance(x, slice) and x == slice(None) for x in rest):
                return first
            f = first.at

            def pick(v):
                if not isinstance(v, SymArray):
                    if rest != (None,):
                        raise Unsupported("index of an array of arbitrary length")
                    e = np.empty((1,), dtype=object)
                    e[0] = T.lift(getattr(v, "node", v))
                    return S.mk(e, (None,), S.kind_of(v))
                return v[rest]
            like = pick(self.like if self.like is not None else Sym(T.rvar("kind probe"), "f"))
            return Indexed(first.n, lambda k: pick(f(k)), self.kind, like)
        if isinstance(i, slice):
            if i.step in (None, 1):
                a, b = self._bound(i.start, 0), self._bound(i.stop, n)
                m = sub(b, a)
                if less(m, 0):
                    m = 0
                return Indexed(m, at if isinstance(a, int) and a == 0 else (lambda k: at(add(k, a))), self.kind, self.like)
            if i == slice(None, None, -1):
                return Indexed(n, lambda k: at(sub(sub(n, 1), k)), self.kind, self.like)
            raise Unsupported("stride over an array of arbitrary length")
        if isinstance(i, SymArray) and i.ndim == 0:
            i = i.item()
        if not isinstance(i, (numbers.Integral, Sym)) or isinstance(i, (bool, np.bool_)):
            raise Unsupported("index of an array of arbitrary length")
        if less(i, 0):
            i = add(n, i)
            if less(i, 0):
                raise IndexError("index out of bounds")
        if not less(i, n):
            raise IndexError("index out of bounds")
        return at(norm(i))

    def map(self, f, kind=None):
        at = self.at
        return Indexed(self.n, lambda k: f(at(k)), kind or self.kind, self.like)

    def __setitem__(self, i, v):
        if not isinstance(i, (numbers.Integral, Sym)):
            raise Unsupported("assignment to an array of arbitrary length")
        old, n = self.at, self.n
        if less(i, 0):
            i = add(n, i)
        if less(i, 0) or not less(i, n):
            raise IndexError("index out of bounds")
        if isinstance(v, Indexed) or getattr(v, "ndim", 0) != self.rank:
            raise Unsupported("assignment to an array of arbitrary length")
        v = S.cast(v, self.kind) if S.kind_of(v) != self.kind else v
        self.at = lambda k: v if eq(k, i) else old(k)

    def each(self, f):
        """f of every element (numpy.lib.scimath: complex where needed)"""
        at = self.at
        probe = self.like if self.like is not None else Sym(T.rvar("kind probe"), self.kind)
        return Indexed(self.n, lambda k: f(at(k)), f(probe).kind, self.like)

    def zip(self, o, f, kind=None):
        if isinstance(o, SymArray) and o.ndim == 0:
            o = o.item()
        a = self.at
        if isinstance(o, SymArray) and 0 < o.ndim <= self.rank:
            return Indexed(self.n, lambda i: f(a(i), o), kind, self.like)
        if isinstance(o, Indexed) and o.rank != self.rank:
            raise Unsupported("arrays of arbitrary length with different numbers of axes")
        if isinstance(o, Indexed) and o.rank:
            if not (o.n is self.n or eq(o.n, self.n)):
                raise Unsupported("arrays of different arbitrary lengths")
            b = o.at
            like = self.like if self.like.a.size >= o.like.a.size and any(x is not None for x in self.like.dims) else o.like
            return Indexed(self.n, lambda i: f(a(i), b(i)), kind, like)
        if isinstance(o, Indexed):
            b, k = o.at, kind or S.kmax(self.kind, o.kind)
            if o.n is self.n or eq(o.n, self.n):
                return Indexed(self.n, lambda i: f(a(i), b(i)), k)
            if eq(o.n, 1):
                return Indexed(self.n, lambda i: f(a(i), b(0)), k)
            if eq(self.n, 1):
                return Indexed(o.n, lambda i: f(a(0), b(i)), k)
            raise ValueError("operands could not be broadcast together")
        if isinstance(o, (Sym, numbers.Number)):
            return Indexed(self.n, lambda i: f(a(i), o), kind or S.kmax(self.kind, S.kind_of(o)), self.like)
        raise Unsupported("an array of arbitrary length with another array")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def _np(self, name, a, k):
        if name == "diff" and len(a) == 1 and not k:
            at = self.at
            m = sub(self.n, 1)
            if less(m, 0):
                m = 0
            return Indexed(m, lambda i: at(add(i, 1)) - at(i), self.kind, self.like)
        if name in ("zeros_like", "ones_like") and not k and not self.rank:
            v = 1.0 if name == "ones_like" else 0.0
            return Indexed(self.n, lambda i: v, self.kind)
        if name == "full_like" and not k and not self.rank:
            return Indexed(self.n, lambda i: a[1], self.kind)
        if name in ("asarray", "array", "asanyarray", "ascontiguousarray", "copy", "atleast_1d", "ravel") and len(a) == 1 and not k:
            return self.copy()
        if name in ("flip", "flipud") and len(a) == 1 and not k:
            return self[::-1]
        if name in S.UN and len(a) == 1 and not k:
            return self.map(lambda v: S.unary(name, v), _kind1(name, self.kind))
        if name in S.BIN and len(a) == 2 and not k:
            x, y = a
            return pair(name, x, y)
        if name == "shape":
            return self.shape
        if name == "size":
            return self.size
        if name == "ndim":
            return self.ndim
        raise Unsupported(f"np.{name} of an array of arbitrary length")


def _kind1(name, kind):
    return S.unary(name, Sym(T.rvar("kind probe") if kind != "c" else T.cvar("kind probe c"), kind)).kind


def pair(name, x, y):
    if isinstance(x, Indexed):
        return x.zip(y, lambda p, q: S.binary(name, p, q), _kind2(name, x, y))
    return y.zip(x, lambda p, q: S.binary(name, q, p), _kind2(name, x, y))


def _kind2(name, x, y):
    def kind(v):
        return v.kind if isinstance(v, Indexed) else S.kind_of(v)
    def probe(k, t):
        return Sym(T.cvar(f"kind probe c{t}") if k == "c" else T.rvar(f"kind probe{t}"), k)
    kx, ky = kind(x), kind(y)
    if "b" in (kx, ky):
        return None
    return S.binary(name, probe(kx, 0), probe(ky, 1)).kind


for _m, _n in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power"),
               ("floordiv", "floor_divide"), ("mod", "remainder")):
    setattr(Indexed, f"__{_m}__", (lambda n: lambda s, o: pair(n, s, o))(_n))
    setattr(Indexed, f"__r{_m}__", (lambda n: lambda s, o: pair(n, o, s))(_n))
Indexed.__neg__ = lambda s: s.map(lambda v: S.unary("negative", v))


# ------------------------------------------------------------------------------------------------ constructors
def count(n):
    """number of elements, at least zero"""
    if isinstance(n, Sym):
        return 0 if less(n, 0) else norm(n)
    return max(0, n)


def linspace(lo, hi, num, endpoint=True):
    if isinstance(lo, (SymArray, Indexed)) or isinstance(hi, (SymArray, Indexed)):
        if any(getattr(v, "ndim", 0) for v in (lo, hi)):
            raise Unsupported("np.linspace of arrays with a symbolic number of points")
    num = norm(num)
    if less(num, 0):
        raise ValueError("Number of samples must be non-negative.")
    kind = S.kmax("f", S.kind_of(lo), S.kind_of(hi))
    div = sub(num, 1) if endpoint else num
    if not less(0, div):
        return Indexed(num, lambda k: lo, kind)
    return Indexed(num, lambda k: lo + (hi - lo) * k / div, kind)


def arange(*a, dtype=None):
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    step = a[2] if len(a) > 2 else 1
    if step != 1 or any(S.kind_of(v) not in "i" for v in (lo, hi)):
        raise Unsupported("np.arange with symbolic bounds")
    r = Indexed(count(sub(hi, lo)), lambda k: add(lo, k), "i")
    return r.astype(dtype) if dtype is not None else r


def filled(n, v, kind):
    return Indexed(count(n), lambda k: v, kind)


def vstack(xs):
    """arrays set one above the other, one of them of arbitrary length"""
    k = next(i for i, x in enumerate(xs) if isinstance(x, Indexed))
    mid, rest = xs[k], xs[:k] + xs[k + 1:]
    if mid.rank != 1 or any(not isinstance(x, SymArray) or x.ndim != 1 for x in rest):
        raise Unsupported("np.vstack with an array of arbitrary length")
    for x in rest:
        if x.dims != mid.like.dims or x.a.shape != mid.like.a.shape:
            raise Unsupported("np.vstack of arrays with different axes")
    kind = S.kmax(mid.kind, *[x.kind for x in rest])
    head, tail = [S.cast(x, kind) for x in xs[:k]], [S.cast(x, kind) for x in xs[k + 1:]]
    m, n, h, at = mid.n, add(mid.n, len(rest)), len(head), mid.at

    def f(i):
        for j, x in enumerate(head):
            if eq(i, j):
                return x
        for j, x in enumerate(tail):
            if eq(i, add(m, h + j)):
                return x
        v = at(sub(i, h))
        return S.cast(v, kind) if v.kind != kind else v
    return Indexed(n, f, kind, mid.like)


class Sequence(Indexed):
    """a list of arbitrary length of tuples"""
    _vf_split = False

    def __deepcopy__(self, memo):
        return self

    def __getitem__(self, i):
        r = Indexed.__getitem__(self, i)
        if isinstance(i, slice):
            r = Sequence(r.n, r.at)
            r.family = self.family
        return r

    def _no(self, *a, **k):
        raise Unsupported("operation on a list of arbitrary length")

    __reversed__ = __contains__ = __add__ = __radd__ = __mul__ = __setitem__ = __bool__ = _no


def alike(a, b):
    """equal at a sample point (tells a loop's variables apart; obligations are proved, not sampled)"""
    import zlib
    a, b = nodes(a), nodes(b)
    if len(a) != len(b):
        return False
    for seed in range(3):
        val = {}
        for n in T.walk(a + b):
            if n.op == "v":
                h = zlib.crc32(f"{seed}{n.pl}".encode())
                val[n] = 1.2 + (h % 1009) / 1009 + (0 if n.real else 0.3j * (h % 97) / 97)
        try:
            r = T.evaluate(a + b, val)
        except T.EvalError:
            return False
        if any(abs(p - q) > 1e-9 * (abs(p) + abs(q)) for p, q in zip(r, r[len(a):])):
            return False
    return True


class LoopRule:
    """loops over an arbitrary number of rounds that carry variables, by the invariants of a contract:
    state(entries, k) -> values that satisfy the invariant after k rounds (the entries are identified by their values),
    check(entries, values, k) -> obligations"""

    def __init__(self, E, contract):
        self.E, self.contract = E, contract

    def enter(self, seq, frame, carried):
        from .stack import set_local
        E, c = self.E, self.contract
        names = sorted(carried)
        entries = [frame.f_locals[v] for v in names]
        if any(not S.is_sym(v) for v in entries):
            raise Unsupported("a loop that carries other things than arrays")
        c.check(entries, entries, 0)
        if E.run.choose_index("loop", 2) == 1:
            if less(seq.n, 1):
                from .engine import PathEnd
                raise PathEnd()
            q = index(seq.n)
            for v, x in zip(names, c.state(entries, q.k)):
                set_local(frame, v, x)
            return _Round(self, seq, names, entries, q)
        for v, x in zip(names, c.state(entries, seq.n)):
            set_local(frame, v, x)
        return iter(())


class _Round:
    def __init__(self, rule, seq, names, entries, q):
        self.rule, self.seq, self.names, self.entries, self.q, self.done = rule, seq, names, entries, q, False

    def __iter__(self):
        return self

    def __next__(self):
        from .engine import PathEnd
        if not self.done:
            self.done = True
            return self.seq.element(self.q.k)
        loc = sys._getframe(1).f_locals
        self.rule.contract.check(self.entries, [loc[v] for v in self.names], add(self.q.k, 1))
        raise PathEnd()


# ------------------------------------------------------------------------------------------------ builtins
class Range(Generic):
    def __init__(self, lo, hi):
        super().__init__(count(sub(hi, lo)), lambda k: add(lo, k))


def b_range(*a):
    if len(a) > 2 and a[2] != 1:
        raise Unsupported("range with symbolic bounds and a step")
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if any(isinstance(v, SymLen) for v in (lo, hi)):
        raise Unsupported("range with symbolic bounds")
    return Range(lo, hi)


def elements(x, n):
    """x as n elements; None: it has another length"""
    if isinstance(x, Generic):
        return x.element if x.n is n or eq(x.n, n) else None
    if type(x) in (list, tuple):
        if len(x) == 1:
            q = loose(x[0])
            if q is not None:
                if not (q.n is n or eq(q.n, n)):
                    return None

                def element(k):
                    if k is not q.k:
                        raise Unsupported("element of a list of arbitrary length")
                    return x[0]
                return element
        raise Unsupported("a list that may have one or arbitrarily many elements, among others")
    raise Unsupported("zip over an arbitrary number of elements")


def any_generic(xs):
    return any(isinstance(x, Generic) for x in xs) or (
        bool(S.INDICES) and any(type(x) in (list, tuple) and len(x) == 1 and loose(x[0]) is not None for x in xs))


def unzip(star):
    if not isinstance(star.item, tuple):
        raise Unsupported("zip(*...) of a list of arbitrary length")
    return [(v,) for v in star.item]


def b_zip(*xs, strict=False):
    n = next(x.n if isinstance(x, Generic) else loose(x[0]).n for x in xs
             if isinstance(x, Generic) or loose(x[0]) is not None)
    es = [elements(x, n) for x in xs]
    if any(e is None for e in es):
        if strict:
            raise ValueError("zip() arguments of different lengths")
        raise Unsupported("zip of sequences of different lengths")
    return Generic(n, lambda k: tuple(e(k) for e in es))


def b_enumerate(x, start=0):
    n = x.n if isinstance(x, Generic) else loose(x[0]).n
    return b_zip(Range(start, add(n, start)), x)


def each(E, label, p, n):
    """a list of n elements -> [(k, element k)]: all of them in a sample, the one for an arbitrary k otherwise"""
    if not E.sym:
        E.true(f"{label}: number", len(p) == n)
        return list(enumerate(p))
    if not isinstance(n, Sym):
        E.true(f"{label}: number", len(p) == n)
        return list(enumerate(p))
    if type(p) is not list or len(p) != 1:
        raise Unsupported("not the list a loop leaves behind")
    q = loose(p[0])
    if q is None:
        raise Unsupported("a list of arbitrary length whose elements do not depend on their position")
    E.true(f"{label}: number", S.binary("equal", q.n, n))
    return [(q.k, p[0])]
