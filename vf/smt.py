"""Boolean and order obligations: translation of terms to z3 (real arithmetic with axioms for the functions)."""
from __future__ import annotations
import sys
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3

from . import terms as T

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
_Q = z3.RealVal


class Tr:
    """one translation context"""

    def __init__(self):
        self.memo = {}
        self.ax = []
        self.names = {}
        self.pi = None
        self.trig = {}
        self.exps = []
        self.angles = []

    def fresh(self, tag, n):
        return z3.Real(f"{tag}!{n.id}")

    def getpi(self):
        if self.pi is None:
            self.pi = z3.Real("pi")
            self.ax += [self.pi > _Q("3.14159265358"), self.pi < _Q("3.14159265359")]
        return self.pi

    # numbers are (re, im) with im None for real ones
    def num(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        for m in T.walk([n]):
            if m.id not in self.memo:
                self.memo[m.id] = self.boolean(m) if m.op in ("cmp", "not", "and", "true", "false", "ex") else self._num(m)
        return self.memo[n.id]

    def bool(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        for m in T.walk([n]):
            if m.id not in self.memo:
                self.memo[m.id] = self.boolean(m) if m.op in ("cmp", "not", "and", "true", "false", "ex") else self._num(m)
        return self.memo[n.id]

    def boolean(self, n):
        op = n.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.memo[n.args[0].id])
        if op == "and":
            return z3.And(*[self.memo[a.id] for a in n.args])
        if op == "ex":
            return z3.Bool(f"ex!{n.id}")
        a, b = self.memo[n.args[0].id], self.memo[n.args[1].id]
        if n.pl == "==":
            c = [a[0] == b[0]]
            if a[1] is not None or b[1] is not None:
                c.append((a[1] if a[1] is not None else _Q(0)) == (b[1] if b[1] is not None else _Q(0)))
            return z3.And(*c) if len(c) > 1 else c[0]
        if n.pl == "<":
            return a[0] < b[0]
        return a[0] <= b[0]

    @staticmethod
    def cmul(a, b):
        if a[1] is None and b[1] is None:
            return (a[0] * b[0], None)
        if a[1] is None:
            return (a[0] * b[0], a[0] * b[1])
        if b[1] is None:
            return (a[0] * b[0], a[1] * b[0])
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    def _num(self, n):
        op = n.op
        m = self.memo
        if op == "c":
            r, i = n.pl
            return (_Q(str(r)), _Q(str(i)) if i != 0 else None)
        if op == "pi":
            return (self.getpi(), None)
        if op == "v":
            k, name, ix = n.pl
            if name.startswith("len:") or name.startswith("int:"):
                v = z3.Int(f"{name}!{n.id}")
                return (z3.ToReal(v), None)
            if n.real:
                return (self.fresh(name, n), None)
            return (self.fresh(name + ".re", n), self.fresh(name + ".im", n))
        if op == "add":
            a, b = m[n.args[0].id], m[n.args[1].id]
            if a[1] is None and b[1] is None:
                im = None
            else:
                im = (a[1] if a[1] is not None else _Q(0)) + (b[1] if b[1] is not None else _Q(0))
            return (a[0] + b[0], im)
        if op == "mul":
            return self.cmul(m[n.args[0].id], m[n.args[1].id])
        if op == "pow":
            a = m[n.args[0].id]
            r = a
            for _ in range(n.pl - 1):
                r = self.cmul(r, a)
            return r
        if op == "div":
            a, b = m[n.args[0].id], m[n.args[1].id]
            q = self.fresh("q", n)
            if a[1] is None and b[1] is None:
                self.ax.append(z3.Implies(b[0] != 0, q * b[0] == a[0]))
                return (q, None)
            qi = self.fresh("qi", n)
            p = self.cmul((q, qi), b)
            nz = b[0] != 0 if b[1] is None else z3.Or(b[0] != 0, b[1] != 0)
            self.ax.append(z3.Implies(nz, z3.And(p[0] == a[0], p[1] == (a[1] if a[1] is not None else _Q(0)))))
            return (q, qi)
        if op == "conj":
            a = m[n.args[0].id]
            return (a[0], -a[1]) if a[1] is not None else a
        if op == "re":
            return (m[n.args[0].id][0], None)
        if op == "im":
            a = m[n.args[0].id]
            return (a[1] if a[1] is not None else _Q(0), None)
        if op == "ite":
            c, a, b = (m[x.id] for x in n.args)
            re = z3.If(c, a[0], b[0])
            im = None
            if a[1] is not None or b[1] is not None:
                im = z3.If(c, a[1] if a[1] is not None else _Q(0), b[1] if b[1] is not None else _Q(0))
            return (re, im)
        if op == "sum":
            return (self.fresh("sum", n), None if n.real else self.fresh("sumi", n))
        if op == "fn":
            return self._fn(n)
        raise AssertionError(op)

    def sincos(self, x):
        """real x -> (sin, cos)"""
        key = x.sexpr() if hasattr(x, "sexpr") else str(x)
        r = self.trig.get(key)
        if r is None:
            k = len(self.trig)
            s, c = z3.Real(f"sin!{k}"), z3.Real(f"cos!{k}")
            p = self.getpi()
            self.ax += [s * s + c * c == 1,
                        z3.Implies(z3.And(x > 0, x < p), s > 0), z3.Implies(z3.And(x < 0, x > -p), s < 0),
                        z3.Implies(z3.And(x < p / 2, x > -p / 2), c > 0),
                        z3.Implies(z3.And(x > p / 2, x < 3 * p / 2), c < 0),
                        z3.Implies(x == 0, z3.And(s == 0, c == 1)),
                        z3.Implies(x == p / 2, z3.And(s == 1, c == 0)),
                        z3.Implies(x == -p / 2, z3.And(s == -1, c == 0)),
                        z3.Implies(x == p, z3.And(s == 0, c == -1))]
            r = self.trig[key] = (s, c)
        return r

    def expr(self, x, n):
        e = self.fresh("exp", n)
        self.ax += [e > 0, z3.Implies(x == 0, e == 1), z3.Implies(x < 0, e < 1), z3.Implies(x > 0, e > 1), e >= 1 + x]
        for (y, f) in self.exps:
            self.ax += [z3.Implies(x < y, e < f), z3.Implies(x > y, e > f), z3.Implies(x == y, e == f)]
        self.exps.append((x, e))
        return e

    def _fn(self, n):
        name = n.pl[0]
        args = [self.memo[a.id] for a in n.args]
        p = None
        if name == "sqrt":
            a = args[0]
            if n.real:
                r = self.fresh("sqrt", n)
                self.ax += [r >= 0, z3.Implies(a[0] >= 0, r * r == a[0])]
                return (r, None)
            r, s = self.fresh("sqrt", n), self.fresh("sqrti", n)
            ai = a[1] if a[1] is not None else _Q(0)
            self.ax += [r * r - s * s == a[0], 2 * r * s == ai, r >= 0, z3.Implies(r == 0, s >= 0)]
            return (r, s)
        if name == "asinsign":
            a = args[0]
            r = self.fresh("asg", n)
            cut = a[0] * a[0] > 1
            if a[1] is not None:
                cut = z3.And(a[1] == 0, cut)
            self.ax += [z3.Or(r == 1, z3.And(r == -1, cut))]
            return (r, None)
        if name == "cosasin":
            a = args[0]
            x2 = self.cmul(a, a)
            if n.real:
                r = self.fresh("cas", n)
                self.ax += [r >= 0, r * r == 1 - x2[0]]
                return (r, None)
            r, s = self.fresh("cas", n), self.fresh("casi", n)
            self.ax += [r >= 0, r * r - s * s == 1 - x2[0], 2 * r * s == (-x2[1] if x2[1] is not None else _Q(0))]
            return (r, s)
        if name == "abs":
            a = args[0]
            if a[1] is None:
                return (z3.If(a[0] >= 0, a[0], -a[0]), None)
            r = self.fresh("abs", n)
            self.ax += [r >= 0, r * r == a[0] * a[0] + a[1] * a[1]]
            return (r, None)
        if name == "exp":
            a = args[0]
            if a[1] is None:
                return (self.expr(a[0], n), None)
            s, c = self.sincos(a[1])
            e = self.expr(a[0], n)
            return (e * c, e * s)
        if name in ("sin", "cos", "tan") and args[0][1] is None:
            s, c = self.sincos(args[0][0])
            if name == "sin":
                return (s, None)
            if name == "cos":
                return (c, None)
            t = self.fresh("tan", n)
            self.ax.append(z3.Implies(c != 0, t * c == s))
            return (t, None)
        if name == "floor":
            f = z3.ToReal(z3.ToInt(args[0][0]))
            return (f, None)
        if name == "sign":
            return (z3.If(args[0][0] < 0, _Q(-1), z3.If(args[0][0] > 0, _Q(1), _Q(0))), None)
        if name == "angle":
            a = args[0]
            p = self.getpi()
            r = self.fresh("angle", n)
            ai = a[1] if a[1] is not None else _Q(0)
            self.ax += [r > -p, r <= p, z3.Implies(ai > 0, z3.And(r > 0, r < p)), z3.Implies(ai < 0, r < 0),
                        z3.Implies(z3.And(ai == 0, a[0] >= 0), r == 0), z3.Implies(z3.And(ai == 0, a[0] < 0), r == p),
                        z3.Implies(a[0] > 0, z3.And(r < p / 2, r > -p / 2)),
                        z3.Implies(z3.And(a[0] < 0), z3.Or(r > p / 2, r < -p / 2))]
            return (r, None)
        if name == "arctan" and args[0][1] is None:
            p = self.getpi()
            r = self.fresh("atan", n)
            a = args[0][0]
            self.ax += [r > -p / 2, r < p / 2, z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0),
                        z3.Implies(a == 0, r == 0)]
            for (y, f) in self.angles:
                self.ax += [z3.Implies(a < y, r < f), z3.Implies(a > y, r > f)]
            self.angles.append((a, r))
            return (r, None)
        if name == "arcsin" and n.real:
            p = self.getpi()
            r = self.fresh("asin", n)
            a = args[0][0]
            self.ax += [r >= -p / 2, r <= p / 2, z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0)]
            return (r, None)
        if name == "powr" and n.real:
            r = self.fresh("powr", n)
            self.ax += [z3.Implies(args[0][0] > 0, r > 0), z3.Implies(args[0][0] == 0, r == 0)]
            return (r, None)
        if name == "log" and n.real:
            r = self.fresh("log", n)
            a = args[0][0]
            self.ax += [z3.Implies(a > 1, r > 0), z3.Implies(a < 1, r < 0), z3.Implies(a == 1, r == 0)]
            return (r, None)
        if name == "inf":
            r = z3.Real("inf")
            self.ax.append(r > _Q("1000000000000000000000000000000"))
            return (r, None)
        return (self.fresh(name, n), None if n.real else self.fresh(name + "i", n))


def vars_of(n, cache={}):
    r = cache.get(n.id)
    if r is None:
        r = frozenset(m.id for m in T.walk([n]) if m.op == "v")
        cache[n.id] = r
    return r


def relevant(facts, goal):
    vs = set(vars_of(goal))
    rest = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f in rest:
            fv = vars_of(f)
            if not fv or fv & vs:
                out.append(f)
                if not fv <= vs:
                    vs |= fv
                    changed = True
            else:
                keep.append(f)
        rest = keep
    return out


def solve(facts, rlimit, timeout=20000, model=False, linear_first=True):
    """check satisfiability of a conjunction; returns (result, model valuation or None)"""
    tr = Tr()
    t0 = time.time()
    STATS["queries"] += 1
    cs = [tr.bool(f) for f in facts]
    s = z3.Solver()
    s.set("rlimit", rlimit)
    s.set("timeout", timeout)
    for c in tr.ax:
        s.add(c)
    for c in cs:
        s.add(c)
    r = s.check()
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.unknown:
        STATS["unknown"] += 1
        return "unknown", None
    mv = None
    if model:
        md = s.model()
        mv = {}
        for f in facts:
            for m in T.walk([f]):
                if m.op == "v" and m not in mv:
                    e = tr.memo[m.id]
                    vals = []
                    for c in e:
                        vals.append(0.0 if c is None else _tofloat(md.eval(c, model_completion=True)))
                    mv[m] = vals[0] if m.real else complex(*vals)
    return "sat", mv


def _tofloat(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.0


_icache = {}


def implied(facts, goal, rlimit=2_000_000, timeout=20000):
    """True if facts entail goal (proved by z3); False otherwise"""
    if goal is T.TRUE:
        return True
    fs = relevant(facts, goal)
    key = (frozenset(f.id for f in fs), goal.id, rlimit)
    r = _icache.get(key)
    if r is None:
        from . import lin
        r = lin.unsat(fs + [T.bnot(goal)])
        if not r:
            res, _ = solve(fs + [T.bnot(goal)], rlimit, timeout)
            r = res == "unsat"
        _icache[key] = r
    return r


def feasible(facts, rlimit=1_000_000, timeout=10000):
    """False only if the facts are contradictory"""
    if any(f is T.FALSE for f in facts):
        return False
    key = ("f", frozenset(f.id for f in facts), rlimit)
    r = _icache.get(key)
    if r is None:
        from . import lin
        r = not lin.unsat(list(facts), 1500)
        if r:
            res, _ = solve(list(facts), rlimit, timeout)
            r = res != "unsat"
        _icache[key] = r
    return r


def refuted(facts):
    """the facts are contradictory by linear arithmetic"""
    if any(f is T.FALSE for f in facts):
        return True
    key = ("r", frozenset(f.id for f in facts))
    r = _icache.get(key)
    if r is None:
        from . import lin
        r = lin.unsat(list(facts), 800)
        if not r:
            r = solve(list(facts), 120_000, 1500)[0] == "unsat"
        _icache[key] = r
    return r
