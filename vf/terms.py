"""Hash-consed terms over the complex numbers (numbers are mathematical, not IEEE)."""
from __future__ import annotations
import math
from fractions import Fraction

import mpmath

__all__ = ["Node", "const", "PI", "I", "ZERO", "ONE", "rvar", "cvar", "add", "sub", "mul", "div", "neg",
           "powi", "fn", "ite", "cmp", "bnot", "band", "bor", "TRUE", "FALSE", "conj", "re", "im", "lift",
           "subst", "Dim", "evaluate", "EvalError", "bigsum", "exists", "reindex", "walk"]


class Dim:
    """A symbolic array length (an arbitrary integer >= min)."""
    _n = 0

    def __init__(self, name, minimum=1):
        self.name = name
        self.minimum = minimum
        Dim._n += 1
        self.uid = Dim._n

    @property
    def node(self):
        """the length, as an integer-valued variable"""
        return rvar("len:" + self.name)

    def __repr__(self):
        return f"Dim({self.name})"


class Node:
    __slots__ = ("op", "args", "pl", "real", "dims", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_table: dict = {}
_EMPTY = frozenset()


def _mk(op, args=(), pl=None, real=False, dims=None):
    key = (op, tuple(a.id for a in args), pl)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.args, n.pl, n.real = op, args, pl, real
    if dims is None:
        dims = _EMPTY
        for a in args:
            if a.dims:
                dims = dims | a.dims
    n.dims = dims
    n.id = len(_table)
    _table[key] = n
    return n


def const(re_, im_=0):
    re_, im_ = Fraction(re_), Fraction(im_)
    return _mk("c", (), (re_, im_), real=(im_ == 0))


ZERO, ONE, I = const(0), const(1), const(0, 1)
MONE, TWO = const(-1), const(2)
PI = _mk("pi", real=True)
TRUE, FALSE = _mk("true"), _mk("false")


def rvar(name, idx=()):
    """real variable; idx = tuple of (dim, index) with index None (generic) or an int"""
    return _mk("v", (), ("r", name, idx), real=True, dims=frozenset(d for d, i in idx if i is None))


def cvar(name, idx=()):
    return _mk("v", (), ("z", name, idx), real=False, dims=frozenset(d for d, i in idx if i is None))


def isc(n):
    return n.op == "c"


def cval(n):
    return n.pl


def _cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "c" and b.op == "c":
        return const(*_cadd(a.pl, b.pl))
    if a.op == "ite" and b.op == "c" or a.op == "c" and b.op == "ite":
        pass
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), real=a.real and b.real)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == "c" and b.op == "c":
        return const(*_cmul(a.pl, b.pl))
    if b.op == "c":
        a, b = b, a
    if a.op == "c" and b.op == "mul" and b.args[0].op == "c":
        return mul(const(*_cmul(a.pl, b.args[0].pl)), b.args[1])
    if a.op != "c" and a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), real=a.real and b.real)


def div(a, b):
    if b is ONE:
        return a
    if b.op == "c":
        r, i = b.pl
        d = r * r + i * i
        if d == 0:
            raise ZeroDivisionError("symbolic division by the constant zero")
        return mul(const(r / d, -i / d), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return _mk("div", (a, b), real=a.real and b.real)


_nan = [0]


def undefined():
    """the result of an undefined operation; every occurrence is different, so nothing can be proved about it"""
    _nan[0] += 1
    return _mk("fn", (), ("nan", _nan[0]), real=False)


def ndiv(a, b):
    """division of array elements: NumPy continues with nan or inf"""
    if b.op == "c" and b.pl[0] == 0 and b.pl[1] == 0:
        return undefined()
    return div(a, b)


def powi(a, k):
    k = int(k)
    if k == 0:
        return ONE
    if k == 1:
        return a
    if k < 0:
        return div(ONE, powi(a, -k))
    if a.op == "c":
        r = (Fraction(1), Fraction(0))
        for _ in range(k):
            r = _cmul(r, a.pl)
        return const(*r)
    return _mk("pow", (a,), k, real=a.real)


REALFN = {"abs", "floor", "angle", "arctan2", "sign", "heaviside"}
# functions real for every real argument
REAL_ON_REAL = {"sin", "cos", "tan", "exp", "arctan", "dawsn", "erf"}


SQRT_HINTS = {}   # id of n*n -> n, for values declared to be principal square roots


def _pi_minus(a):
    """x if a is the node pi - x"""
    if a.op == "add":
        p, q = a.args
        if q is PI:
            p, q = q, p
        if p is PI and q.op == "mul" and q.args[0] is MONE:
            return q.args[1]
    return None


def fn(name, *args, real=None, pl=None):
    """function application; `real` forces the known-real flag (real-kind numpy call)"""
    if name == "sqrt":
        h = SQRT_HINTS.get(args[0].id)
        if h is not None:
            return h
        if args[0] is ZERO or args[0] is ONE:
            return args[0]
    elif name in ("sin", "cos", "tan"):
        a = args[0]
        if a is ZERO:
            return ONE if name == "cos" else ZERO
        if a.op == "ite":
            return ite(a.args[0], fn(name, a.args[1]), fn(name, a.args[2]))
        x = _pi_minus(a)
        if x is not None:
            return fn("sin", x) if name == "sin" else neg(fn(name, x))
        if a.op == "fn" and a.pl[0] == "arcsin":
            if name == "sin":
                return a.args[0]
            if name == "cos":
                x = a.args[0]
                if a.real:
                    return fn("cosasin", x, real=True)
                # sqrt(1 - x^2), with either sign on the branch cut of arcsin
                r = fn("sqrt", sub(ONE, powi(x, 2)), real=False)
                return ite(cmp("<", fn("asinsign", x, real=True), ZERO), neg(r), r)
    elif name == "exp" and args[0] is ZERO:
        return ONE
    elif name == "floor" and args[0].op == "c" and args[0].real:
        return const(math.floor(args[0].pl[0]))
    elif name == "angle" and args[0].op == "c" and args[0].real:
        return ZERO if args[0].pl[0] >= 0 else PI
    elif name == "arctan" and args[0].op == "c":
        if args[0] is ZERO:
            return ZERO
        if args[0] is ONE:
            return mul(const(Fraction(1, 4)), PI)
        if args[0] is MONE:
            return mul(const(Fraction(-1, 4)), PI)
    if real is None:
        real = name in REALFN or (name in REAL_ON_REAL and all(a.real for a in args))
    return _mk("fn", args, (name, pl), real=real)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk("ite", (c, a, b), real=a.real and b.real)


def cmp(op, a, b):
    """op in '<','<=','==' ; == allowed on complex"""
    if a.op == "c" and b.op == "c":
        if op == "==":
            return TRUE if a.pl == b.pl else FALSE
        if a.real and b.real:
            x, y = a.pl[0], b.pl[0]
            return TRUE if (x < y if op == "<" else x <= y) else FALSE
    if a is b:
        return FALSE if op == "<" else TRUE
    s, t = _infinite(a), _infinite(b)
    if s and t:
        return TRUE if (s == t if op == "==" else s < t if op == "<" else s <= t) else FALSE
    for x, y, left in ((a, b, True), (b, a, False)):
        s = _infinite(x)
        if s and y.real and not any(m.op == "fn" and m.pl[0] in ("inf", "nan") for m in walk([y])):
            # a finite number and an infinite one
            return FALSE if op == "==" else TRUE if (s < 0) == left else FALSE
    return _mk("cmp", (a, b), op)


def _infinite(n):
    if n.op == "fn" and n.pl[0] == "inf":
        return 1
    if n.op == "mul" and any(x.op == "fn" and x.pl[0] == "inf" for x in n.args):
        c = [x for x in n.args if x.op == "c"]
        if c and c[0].real and c[0].pl[0]:
            return 1 if c[0].pl[0] > 0 else -1
    return 0


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(sorted(out, key=lambda n: n.id)))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def exists(dim, body):
    if dim not in body.dims:
        return body
    return _mk("ex", (body,), dim, dims=body.dims - {dim})


def bigsum(dim, body):
    return _mk("sum", (body,), dim, real=body.real, dims=body.dims - {dim})


_conj_cache = {}


def conj(a):
    if a.real:
        return a
    r = _conj_cache.get(a.id)
    if r is None:
        r = _conj(a)
        _conj_cache[a.id] = r
    return r


def _conj(a):
    op = a.op
    if op == "c":
        return const(a.pl[0], -a.pl[1])
    if op == "v":
        return _mk("conj", (a,))
    if op == "conj":
        return a.args[0]
    if op == "add":
        return add(conj(a.args[0]), conj(a.args[1]))
    if op == "mul":
        return mul(conj(a.args[0]), conj(a.args[1]))
    if op == "div":
        return div(conj(a.args[0]), conj(a.args[1]))
    if op == "pow":
        return powi(conj(a.args[0]), a.pl)
    if op == "ite":
        return ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    if op == "sum":
        return bigsum(a.pl, conj(a.args[0]))
    if op == "fn" and a.pl[0] in ("exp", "sin", "cos", "tan"):
        return fn(a.pl[0], *[conj(x) for x in a.args])
    return _mk("conj", (a,))


def re(a):
    if a.real:
        return a
    if a.op == "c":
        return const(a.pl[0])
    if a.op == "ite":
        return ite(a.args[0], re(a.args[1]), re(a.args[2]))
    if a.op == "add":
        return add(re(a.args[0]), re(a.args[1]))
    if a.op == "mul" and a.args[0].real:
        return mul(a.args[0], re(a.args[1]))
    if a.op == "mul" and a.args[0].op == "c":
        p, q = a.args[0].pl
        x = a.args[1]
        return sub(mul(const(p), re(x)), mul(const(q), im(x)))
    return _mk("re", (a,), real=True)


def im(a):
    if a.real:
        return ZERO
    if a.op == "c":
        return const(a.pl[1])
    if a.op == "ite":
        return ite(a.args[0], im(a.args[1]), im(a.args[2]))
    if a.op == "add":
        return add(im(a.args[0]), im(a.args[1]))
    if a.op == "mul" and a.args[0].real:
        return mul(a.args[0], im(a.args[1]))
    if a.op == "mul" and a.args[0].op == "c":
        p, q = a.args[0].pl
        x = a.args[1]
        return add(mul(const(p), im(x)), mul(const(q), re(x)))
    return _mk("im", (a,), real=True)


# ---------------------------------------------------------------- lifting of floats
_lift_cache = {}


def lift_float(x):
    """lift a double to the exact number it stands for: a simple rational, a rational multiple of pi,
    or the square root of a simple rational; otherwise its shortest decimal representation"""
    n = _lift_cache.get(x)
    if n is None:
        n = _lift_float(x)
        _lift_cache[x] = n
    return n


def _lift_float(x):
    if x != x or x in (math.inf, -math.inf):
        return fn("inf" if x == x else "nan", real=True) if not (x == -math.inf) else neg(fn("inf", real=True))
    if x == 0:
        return ZERO
    if float(x).is_integer() and abs(x) < 2**53:
        return const(int(x))
    dec = Fraction(repr(float(x)))
    digits = len(str(dec.numerator).strip("-").rstrip("0"))
    if digits <= 13 :
        return const(dec)
    f = Fraction(x).limit_denominator(2000)
    if f != 0 and abs(float(f) - x) <= 2e-16 * abs(x):
        return const(f)
    for p in (1, -1, 2, -2):
        f = Fraction(x / math.pi**p).limit_denominator(720)
        if f != 0 and abs(float(f) * math.pi**p - x) <= 4.5e-16 * abs(x):
            return mul(const(f), powi(PI, p))
    f = Fraction(x * x).limit_denominator(200)
    if f != 0 and abs(math.sqrt(float(f)) - abs(x)) <= 3e-16 * abs(x):
        r = fn("sqrt", const(f), real=True)
        return r if x > 0 else neg(r)
    f = Fraction(x * x / math.pi).limit_denominator(200)
    if f != 0 and abs(math.sqrt(float(f) * math.pi) - abs(x)) <= 3e-16 * abs(x):
        r = fn("sqrt", mul(const(f), PI), real=True)
        return r if x > 0 else neg(r)
    return const(dec)


def lift(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return lift_float(float(x))
    if isinstance(x, complex):
        return add(lift_float(x.real), mul(I, lift_float(x.imag)))
    import numpy as np
    if isinstance(x, np.bool_):
        return const(int(x))
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, np.floating):
        return lift_float(float(x))
    if isinstance(x, np.complexfloating):
        return lift(complex(x))
    raise TypeError(f"cannot lift {type(x)}")


# ---------------------------------------------------------------- traversal
def walk(roots):
    """nodes reachable from roots, children first"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def rebuild(n, args):
    op = n.op
    if not n.args:
        return n
    if all(x is y for x, y in zip(args, n.args)):
        return n
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return powi(args[0], n.pl)
    if op == "fn":
        return fn(n.pl[0], *args, real=n.real or None, pl=n.pl[1])
    if op == "ite":
        return ite(*args)
    if op == "cmp":
        return cmp(n.pl, *args)
    if op == "not":
        return bnot(args[0])
    if op == "and":
        return band(*args)
    if op == "ex":
        return exists(n.pl, args[0])
    if op == "sum":
        return bigsum(n.pl, args[0])
    if op == "conj":
        return conj(args[0])
    if op == "re":
        return re(args[0])
    if op == "im":
        return im(args[0])
    raise AssertionError(op)


def subst(roots, f):
    """bottom-up rewriting; f(node) returns a replacement or None"""
    memo = {}
    for n in walk(roots):
        r = f(n)
        if r is None:
            r = rebuild(n, tuple(memo[a.id] for a in n.args)) if n.args else n
        memo[n.id] = r
    return [memo[r.id] for r in roots]


def reindex(n, dim, idx):
    """the value of a generic element at the concrete index idx of dim (idx may be any hashable key)"""
    if dim not in n.dims:
        return n

    def f(m):
        if m.op == "v" and dim in m.dims:
            k, name, ix = m.pl
            ix = tuple((d, idx if (d is dim and i is None) else i) for d, i in ix)
            return rvar(name, ix) if k == "r" else cvar(name, ix)
        if m.op == "fn" and isinstance(m.pl[1], tuple) and any(isinstance(x, tuple) and len(x) == 2 and x[0] is dim and x[1] is None for x in m.pl[1]):
            raise NotImplementedError
        return None

    return subst([n], f)[0]


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


SPECIAL = {}  # extra function evaluators: name -> callable(mp, payload, *args)


def _principal_sqrt(mp, z):
    z = mp.mpc(z)
    if z.imag == 0 and z.real < 0:
        return mp.mpc(0, mp.sqrt(-z.real))
    return mp.sqrt(z)


def _round(mp, z, n):
    """clear relative noise so that branch cuts are decided as in exact arithmetic"""
    return z


def evaluate(roots, val, dps=30, extra=None):
    """evaluate nodes at a valuation {var node: number} with mpmath; booleans -> bool.
    Raises EvalError for division by zero or unsupported functions."""
    mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
    mp.dps = dps
    memo = {}
    eps = mp.mpf(10) ** (-(dps * 2) // 3)

    def tidy(z):
        z = mp.mpc(z)
        s = abs(z)
        if s == 0:
            return z
        if abs(z.imag) < eps * s:
            z = mp.mpc(z.real, 0)
        if abs(z.real) < eps * s:
            z = mp.mpc(0, z.imag)
        return z

    for n in walk(roots):
        op = n.op
        try:
            if op == "c":
                r = mp.mpc(mp.mpf(n.pl[0].numerator) / n.pl[0].denominator,
                           mp.mpf(n.pl[1].numerator) / n.pl[1].denominator)
            elif op == "pi":
                r = mp.mpc(mp.pi)
            elif op == "v":
                if n not in val:
                    raise EvalError(f"no value for {n}")
                r = mp.mpc(val[n])
            elif op == "true":
                r = True
            elif op == "false":
                r = False
            else:
                a = [memo[x.id] for x in n.args]
                if op == "ite":
                    r = a[1] if a[0] is True else a[2] if a[0] is False else None
                    if r is None:
                        raise EvalError("undefined condition")
                    if isinstance(r, EvalError):
                        raise r
                    memo[n.id] = r
                    continue
                for x in a:
                    if isinstance(x, EvalError):
                        raise x
                if op == "add":
                    r = a[0] + a[1]
                elif op == "mul":
                    r = a[0] * a[1]
                elif op == "div":
                    if a[1] == 0:
                        raise EvalError("division by zero")
                    r = a[0] / a[1]
                elif op == "pow":
                    r = a[0] ** n.pl
                elif op == "conj":
                    r = mp.conj(a[0])
                elif op == "re":
                    r = mp.mpc(a[0].real)
                elif op == "im":
                    r = mp.mpc(a[0].imag)
                elif op == "cmp":
                    d = tidy(a[0] - a[1])
                    s = max(abs(a[0]), abs(a[1]), mp.mpf(1e-300))
                    z = abs(d) < eps * s
                    if n.pl == "==":
                        r = bool(z)
                    elif n.pl == "<":
                        r = bool(not z and d.real < 0)
                    else:
                        r = bool(z or d.real <= 0)
                elif op == "not":
                    r = not a[0]
                elif op == "and":
                    r = all(a)
                elif op == "fn":
                    r = _evalfn(mp, n, a, tidy)
                elif op in ("ex", "sum"):
                    if extra is None:
                        raise EvalError("quantified term")
                    r = extra(n)
                else:
                    raise EvalError(op)
        except EvalError as e:
            r = e
        except (ZeroDivisionError, ValueError, OverflowError) as e:
            r = EvalError(str(e))
        memo[n.id] = r
    out = []
    for r in roots:
        v = memo[r.id]
        if isinstance(v, EvalError):
            raise v
        out.append(v)
    return out


def _evalfn(mp, n, a, tidy):
    name, pl = n.pl
    if name == "sqrt":
        z = tidy(a[0])
        if n.real and z.real < 0:
            raise EvalError("sqrt of a negative real")
        return _principal_sqrt(mp, z)
    if name == "cbrt":
        z = tidy(a[0])
        return mp.power(z, mp.mpf(1) / 3) if z != 0 else mp.mpc(0)
    if name == "exp":
        return mp.exp(a[0])
    if name == "log":
        z = tidy(a[0])
        if z == 0:
            raise EvalError("log 0")
        if n.real and z.real < 0:
            raise EvalError("log of a negative real")
        return mp.mpc(mp.log(z))
    if name == "sin":
        return mp.sin(a[0])
    if name == "cos":
        return mp.cos(a[0])
    if name == "tan":
        return mp.tan(a[0])
    if name == "arcsin":
        return mp.mpc(mp.asin(tidy(a[0])))
    if name == "arctan":
        return mp.mpc(mp.atan(a[0]))
    if name == "abs":
        return mp.mpc(abs(a[0]))
    if name == "angle":
        z = tidy(a[0])
        return mp.mpc(mp.arg(z)) if z != 0 else mp.mpc(0)
    if name == "floor":
        x = a[0].real
        y = mp.nint(x)
        if abs(x - y) < mp.mpf(10) ** (-mp.dps // 2):
            return mp.mpc(y)
        return mp.mpc(mp.floor(x))
    if name == "sign":
        x = a[0].real
        return mp.mpc(0 if x == 0 else (1 if x > 0 else -1))
    if name == "powr":
        z = tidy(a[0])
        if z == 0:
            if a[1].real > 0:
                return mp.mpc(0)
            raise EvalError("0**neg")
        if n.real and z.real < 0:
            raise EvalError("negative ** real")
        return mp.power(z, a[1])
    if name == "dawsn":
        x = a[0]
        return mp.mpc(mp.sqrt(mp.pi) / 2 * mp.exp(-x * x) * mp.erfi(x))
    if name == "digamma":
        return mp.mpc(mp.digamma(a[0]))
    if name == "gamma":
        return mp.mpc(mp.gamma(a[0]))
    if name in SPECIAL:
        return SPECIAL[name](mp, pl, *a)
    raise EvalError(f"no evaluator for {name}")


def show(n, depth=6):
    op = n.op
    if op == "c":
        r, i = n.pl
        if i == 0:
            return str(r)
        if r == 0:
            return f"{i}i"
        return f"({r}+{i}i)"
    if op == "pi":
        return "pi"
    if op in ("true", "false"):
        return op
    if op == "v":
        k, name, ix = n.pl
        return name + "".join(f"[{'i' if i is None else i}]" for d, i in ix)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in n.args]
    if op == "add":
        return f"({a[0]} + {a[1]})"
    if op == "mul":
        return f"{a[0]}*{a[1]}"
    if op == "div":
        return f"({a[0]})/({a[1]})"
    if op == "pow":
        return f"({a[0]})^{n.pl}"
    if op == "cmp":
        return f"({a[0]} {n.pl} {a[1]})"
    if op == "fn":
        return f"{n.pl[0]}{'' if n.pl[1] is None else n.pl[1]}({', '.join(a)})"
    if op in ("ex", "sum"):
        return f"{op}_{n.pl.name}({a[0]})"
    return f"{op}({', '.join(a)})"
