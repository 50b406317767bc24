"""C18 sums of dispersions

Contract of DispersionSum / IndexDispersionSum: the function is the sum over the list of operands - proved for lists of
every length by induction over the list (fold.py). Contract of the additions: the operand list of the result is the
concatenation of the operands' lists; checked for every shape of an expression of at most four operands, each one an
arbitrary dispersion, a number, a table or a model of the library, with all operands and intermediate sums compared
before and after.
"""
import itertools

import numpy as np

import elli
from elli.dispersions.base_dispersion import Dispersion, IndexDispersion, DispersionSum, IndexDispersionSum, InvalidParameters
from ..engine import harness
from ..fold import AnyList
from .c05 import AnyDispersion, AnyIndex
from .c06 import REAL, heap

BOUND = "expressions of at most four operands; any operand functions, any wavelengths"
INDEX = ("cauchy", "indexsum", "table", "asindex")       # index-based models of c06.REAL
EPS = ("sellmeier", "lorentz", "tauc", "cody", "gauss", "tanguy", "sum", "tableeps", "formula", "any")


def axis(E):
    d = E.dim("N")
    return E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)


def leaf(E, kind, name, index):
    """(object, its function as the sum has to see it)"""
    if kind == "any":
        d = AnyIndex(E, name) if index else AnyDispersion(E, name)
    elif kind == "number":
        x = E.real(name, -5.0, 5.0, special=(0.0,))
        return x, lambda lb: x + 0 * lb
    elif kind == "integer":
        return 2, lambda lb: 2 + 0 * lb
    elif kind == "table":
        v = [E.real(f"{name}.{k}", 1.0, 3.0) for k in range(2)]
        d = (elli.Table if index else elli.TableEpsilon)([100.0, 3000.0], [v[0], v[1] + 0.5j])
    elif kind == "sum":
        d = (IndexDispersionSum if index else DispersionSum)(leaf(E, "any", name + "a", index)[0],
                                                            leaf(E, "any", name + "b", index)[0])
    else:
        d = REAL[kind](E, name)
    return d, own(d)


def own(d):
    return (lambda lb: d.refractive_index(lb)) if isinstance(d, IndexDispersion) else (lambda lb: d.dielectric_function(lb))


def trees(lo, hi):
    """all ways to bracket the operands lo..hi-1"""
    if hi - lo == 1:
        yield lo
    for k in range(lo + 1, hi):
        for a in trees(lo, k):
            for b in trees(k, hi):
                yield a, b


def show(t):
    return str(t) if isinstance(t, int) else "(" + "+".join(map(show, t)) + ")"


def build(t, objs, seen):
    if isinstance(t, int):
        return objs[t]
    r = build(t[0], objs, seen) + build(t[1], objs, seen)
    seen.append(r)
    return r


def refused(t, kinds):
    """sub-expressions that are no sum of dispersions: two numbers, two tables"""
    if isinstance(t, int):
        return kinds[t]
    a, b = (refused(x, kinds) for x in t)
    if a is None or b is None or (a in ("number", "integer") and b in ("number", "integer")) or a == b == "table":
        return None
    return "sum"


def expression(E, index, n, kinds):
    lb = axis(E)
    cases = [(t, c) for t in trees(0, n) for c in itertools.product(kinds, repeat=n) if refused(t, c)]
    names = [show(t) + ":" + ",".join(c) for t, c in cases]
    t, c = cases[names.index(E.choose("expression", names))]
    leaves = [leaf(E, k, f"x{i}", index) for i, k in enumerate(c)]
    same = E.choose("one operand twice", ["no"] + [f"{i},{j}" for i in range(n) for j in range(i + 1, n) if c[i] == c[j]])
    if same != "no":
        i, j = map(int, same.split(","))
        if c[i] == "table" or n == 4 and (i, j) not in ((0, 2), (1, 3), (0, 3)):
            return
        leaves[j] = leaves[i]
    objs = [o for o, f in leaves]
    want = sum(f(lb) for o, f in leaves)
    parts_ = [f(lb) for o, f in leaves]
    before = [heap(o) for o in objs]
    seen = []
    s = build(t, objs, seen)
    E.true("operands unchanged", [heap(o) for o in objs] == before)
    E.eq("function of the sum", own(s)(lb), want, rtol=1e-9)
    E.true("the sum is index-based exactly when its operands are", isinstance(s, IndexDispersion) == index)
    if index:
        E.eq("dielectric function of an index sum", s.dielectric_function(lb), want ** 2, rtol=1e-9)
    else:
        E.eq("get_dielectric", s.get_dielectric(lb), want, rtol=1e-9)
    # no intermediate sum was changed by the later additions, nor the operands by the evaluation
    for i, r in enumerate(seen):
        E.eq(f"intermediate sum {i}", own(r)(lb), own_value(t, seen, i, parts_), rtol=1e-9)
    E.true("operands unchanged by the evaluation", [heap(o) for o in objs] == before)


def own_value(t, seen, i, vals):
    """the value of the i-th partial sum (in the order the expression is evaluated)"""
    order = []

    def go(t):
        if isinstance(t, int):
            return vals[t]
        v = go(t[0]) + go(t[1])
        order.append(v)
        return v
    go(t)
    return order[i]


def make(index, n, kinds, name):
    @harness("C18", name=name, n=60, bounded=BOUND, maxpaths=2000, weight=2 if n == 4 else 1)
    def h(E):
        expression(E, index, n, kinds)
    return h


for index in (False, True):
    w = "index" if index else "epsilon"
    make(index, 2, ("any", "number", "integer", "table", "sum"), w + "_pairs")
    make(index, 3, ("any", "number", "table"), w + "_triples")
    make(index, 4, ("any", "number"), w + "_quadruples")


@harness("C18", n=80, bounded="pairs of models of the library; any wavelengths", maxpaths=2000)
def models(E):
    lb = axis(E)
    which = E.choose("kind", ["epsilon", "index"])
    names = EPS if which == "epsilon" else INDEX
    a, b = E.choose("left", list(names)), E.choose("right", list(names))
    if a == b and a.startswith("table") or E.sym and (b not in (names[0], "table", "any") or a == "cody"):
        return
    x, y = REAL[a](E, "x"), REAL[b](E, "y")
    f, g = own(x), own(y)
    want = f(lb) + g(lb)
    before = heap(x), heap(y)
    s = x + y
    E.true("operands unchanged", (heap(x), heap(y)) == before)
    E.eq("function of the sum", own(s)(lb), want, rtol=1e-9)
    q = E.real("q", -3.0, 3.0)
    E.eq("and a number", own(s + q)(lb), want + q, rtol=1e-9)
    E.eq("a number in front", own(q + s)(lb), want + q, rtol=1e-9)
    E.true("operands unchanged after more additions", (heap(x), heap(y)) == before)


# ------------------------------------------------------------------------------------------------ any number of operands
@harness("C18", n=40)
def any_length(E):
    """the function of a sum of any number of operands is the sum of their functions"""
    lb = axis(E)
    index = E.choose("kind", ["epsilon", "index"]) == "index"
    s = (IndexDispersionSum if index else DispersionSum)()
    E.eq("no operand", own(s)(lb) + 0 * lb, 0 * lb)
    if E.sym:
        x = leaf(E, "any", "x", index)[0]
        L = AnyList(E, "operands", x)
        if index:
            s.index_dispersions = L
        else:
            s.dispersions = L
        L.phase(False)
        before = own(s)(lb)
        L.phase(True)
        E.eq("one more operand adds its function", own(s)(lb) - before, own(x)(lb))
    else:
        n = E.choose("n", [1, 2, 3, 5, 9])
        xs = [leaf(E, "any", f"x{i}", index)[0] for i in range(n)]
        s = (IndexDispersionSum if index else DispersionSum)(*xs)
        E.eq("constructor", own(s)(lb), sum(own(x)(lb) for x in xs), rtol=1e-9)
        E.eq("builtin sum", own(sum(xs[1:], xs[0]) + 0)(lb), sum(own(x)(lb) for x in xs), rtol=1e-9)
        E.eq("builtin sum from zero", own(sum(xs))(lb), sum(own(x)(lb) for x in xs), rtol=1e-9)


@harness("C18", n=40, bounded="sums with at most four operands in the constructor or on either side")
def concatenation(E):
    """the list of a sum is its operands', in any split, and no list is shared"""
    lb = axis(E)
    index = E.choose("kind", ["epsilon", "index"]) == "index"
    cls = IndexDispersionSum if index else DispersionSum
    n, k = E.choose("left", [0, 1, 2, 3]), E.choose("right", [0, 1, 2, 3])
    xs = [leaf(E, "any", f"x{i}", index)[0] for i in range(n)]
    ys = [leaf(E, "any", f"y{i}", index)[0] for i in range(k)]
    a, b = cls(*xs), cls(*ys)
    va, vb = own(a)(lb) + 0 * lb, own(b)(lb) + 0 * lb
    s = a + b
    t = cls(a, 1.5, b)
    E.eq("sum of sums", own(s)(lb) + 0 * lb, va + vb)
    E.eq("constructor with sums and a number", own(t)(lb), va + vb + 1.5)
    z = leaf(E, "any", "z", index)[0]
    u = s + z
    w = z + s
    E.eq("extended", own(u)(lb), va + vb + own(z)(lb))
    E.eq("extended from the left", own(w)(lb), va + vb + own(z)(lb))
    c = a
    c += z
    E.eq("in place", own(c)(lb), va + own(z)(lb))
    E.eq("left sum unchanged", own(a)(lb) + 0 * lb, va)
    E.eq("right sum unchanged", own(b)(lb) + 0 * lb, vb)
    E.eq("first result unchanged", own(s)(lb) + 0 * lb, va + vb)


# ------------------------------------------------------------------------------------------------ refusals
OTHER = {"str": "1", "none": None, "list": [1.0], "dict": {}, "complex": 1j, "array": np.ones(2), "object": object(),
         "type": elli.Cauchy, "material": None, "set": {1}}


@harness("C18", n=60, bounded="the listed operands", maxpaths=3000)
def refusals(E):
    def one(name, index):
        k = E.choose(name, ["any", "table", "sum", "model"])
        return (REAL["cauchy" if index else "lorentz"](E, name) if k == "model" else leaf(E, k, name, index)[0]), k
    case = E.choose("case", ["mixed", "tables", "other"])
    index = E.choose("left is", ["epsilon", "index"]) == "index"
    if case == "mixed":
        a, ka = one("x", index)
        b, kb = one("y", not index)
        what = "mixing dielectric and index based dispersions"
    elif case == "tables":
        a, b = leaf(E, "table", "x", index)[0], leaf(E, "table", "y", index)[0]
        what = "two tables"
    else:
        a, ka = one("x", index)
        o = E.choose("other", list(OTHER))
        b = elli.IsotropicMaterial(elli.Cauchy()) if o == "material" else OTHER[o]
        what = "other operands"
    h = heap(a), heap(b) if isinstance(b, elli.dispersions.base_dispersion.BaseDispersion) else 0
    E.raises(what, (TypeError, NotImplementedError), lambda: a + b)
    if case != "other" or not isinstance(b, np.ndarray):
        E.raises(what + ", exchanged", (TypeError, NotImplementedError), lambda: b + a)
    if case != "tables":
        cls = IndexDispersionSum if index else DispersionSum
        E.raises(what + ", constructor", (TypeError, NotImplementedError), lambda: cls(a, b))
    E.true("nothing changed", h == (heap(a), heap(b) if isinstance(b, elli.dispersions.base_dispersion.BaseDispersion) else 0))
