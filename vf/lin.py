"""Linear abstraction of order obligations: every term becomes a polynomial over atoms, every monomial a variable;
z3 then only does linear arithmetic.  Sound (it only forgets facts), fast, tried before the non-linear translation."""
from __future__ import annotations
import time
from fractions import Fraction

from . import terms as T
from . import smt
from .smt import z3, _Q

PI = ("pi",)
CAP = 60


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key = tuple(sorted((x, k) for x, k in e.items() if k))
            v = r.get(key, 0) + c * d
            if v:
                r[key] = v
            else:
                r.pop(key, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


ONE = {(): Fraction(1)}


class Lin:
    def __init__(self):
        self.memo = {}
        self.ax = []
        self.zv = {}       # atom -> z3 variable
        self.mon = {}      # monomial -> z3 variable
        self.done = set()
        self.pi = None
        self.units = {}
        self.depth = 0

    # -------- atoms
    def atom(self, tag, n, k=0):
        key = (tag, n.id, k)
        if key not in self.zv:
            if tag == "int":
                self.zv[key] = z3.ToReal(z3.Int(f"i!{n.id}"))
            else:
                self.zv[key] = z3.Real(f"{tag}!{n.id}!{k}")
        return key

    def poly(self, key):
        return {((key, 1),): Fraction(1)}

    def getpi(self):
        if PI not in self.zv:
            self.zv[PI] = z3.Real("pi")
            self.ax += [self.zv[PI] > _Q("3.14159265358"), self.zv[PI] < _Q("3.14159265359")]
        return PI

    def lin(self, p):
        """polynomial -> linear z3 expression over monomial variables"""
        out = []
        for m, c in p.items():
            if not m:
                out.append(_Q(str(c)))
                continue
            out.append(_Q(str(c)) * self.monv(m))
        if not out:
            return _Q(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def monv(self, m):
        if len(m) == 1 and m[0][1] == 1:
            if m[0][0] == PI:
                self.getpi()
            return self.zv[m[0][0]]
        v = self.mon.get(m)
        if v is not None:
            return v
        v = self.mon[m] = z3.Real("m!%d" % len(self.mon))
        odd = [x for x, k in m if k % 2 and x != PI]
        if PI in [x for x, k in m]:
            self.getpi()
        if len(m) == 1 and m[0][0] == PI:
            p = Fraction("3.14159265359") ** m[0][1]
            q = Fraction("3.14159265358") ** m[0][1]
            lo, hi = min(p, q), max(p, q)
            self.ax += [v >= _Q(str(lo)), v <= _Q(str(hi))]
        if len(odd) == 0:
            self.ax.append(v >= 0)
            self.ax.append(z3.Implies(z3.And(*[self.zv[x] != 0 for x, k in m if k > 0 and x != PI] or [z3.BoolVal(True)]), v > 0))
        elif len(odd) <= 3:
            z = [self.zv[x] for x in odd]
            import itertools
            for s in itertools.product((1, -1), repeat=len(z)):
                sg = 1
                for x in s:
                    sg *= x
                pre = z3.And(*[(x >= 0) if t > 0 else (x <= 0) for x, t in zip(z, s)])
                self.ax.append(z3.Implies(pre, v >= 0 if sg > 0 else v <= 0))
            if all(k == 1 for x, k in m):
                for s in itertools.product((1, -1), repeat=len(z)):
                    sg = 1
                    for x in s:
                        sg *= x
                    pre = z3.And(*[(x > 0) if t > 0 else (x < 0) for x, t in zip(z, s)])
                    self.ax.append(z3.Implies(pre, v > 0 if sg > 0 else v < 0))
        # angle / pi
        for x, k in m:
            if x in self.units and k == 1 and dict(m).get(PI) == -1 and len(m) == 2:
                lo, hi, strictlo, stricthi = self.units[x]
                self.ax += [v > lo if strictlo else v >= lo, v < hi if stricthi else v <= hi]
                a = self.zv[x]
                for q in (-1, Fraction(-1, 2), 0, Fraction(1, 2), 1):
                    pv = self.zv[PI]
                    qq = _Q(str(q))
                    self.ax += [(a < qq * pv) == (v < qq), (a == qq * pv) == (v == qq)]
        return v

    # -------- terms
    def num(self, n):
        r = self.memo.get(n.id)
        if r is None:
            for m in T.walk([n]):
                if m.id not in self.memo:
                    self.memo[m.id] = self.boolean(m) if m.op in ("cmp", "not", "and", "true", "false", "ex") \
                        else self.cap(m, self._num(m))
            r = self.memo[n.id]
        return r

    bool = num

    def cap(self, n, r):
        re, im = r
        if len(re) > CAP or (im is not None and len(im) > CAP):
            return (self.poly(self.atom("cap", n)), None if im is None else self.poly(self.atom("capi", n)))
        return r

    def boolean(self, n):
        op = n.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.memo[n.args[0].id])
        if op == "and":
            return z3.And(*[self.memo[a.id] for a in n.args])
        if op == "ex":
            return z3.Bool(f"ex!{n.id}")
        a, b = self.memo[n.args[0].id], self.memo[n.args[1].id]
        d = self.lin(padd(a[0], b[0], -1))
        if n.pl == "==":
            c = [d == 0]
            if a[1] is not None or b[1] is not None:
                c.append(self.lin(padd(a[1] or {}, b[1] or {}, -1)) == 0)
            return z3.And(*c) if len(c) > 1 else c[0]
        return d < 0 if n.pl == "<" else d <= 0

    def cm(self, a, b):
        if a[1] is None and b[1] is None:
            return (pmul(a[0], b[0]), None)
        ai, bi = a[1] or {}, b[1] or {}
        return (padd(pmul(a[0], b[0]), pmul(ai, bi), -1), padd(pmul(a[0], bi), pmul(ai, b[0])))

    def _num(self, n):
        op, m = n.op, self.memo
        if op == "c":
            r, i = n.pl
            return ({(): Fraction(r)} if r else {}, {(): Fraction(i)} if i else None)
        if op == "pi":
            return (self.poly(self.getpi()), None)
        if op == "v":
            k, name, ix = n.pl
            if name.startswith("len:") or name.startswith("int:"):
                return (self.poly(self.atom("int", n)), None)
            if n.real:
                return (self.poly(self.atom("v", n)), None)
            return (self.poly(self.atom("vr", n)), self.poly(self.atom("vi", n)))
        if op == "add":
            a, b = (m[x.id] for x in n.args)
            return (padd(a[0], b[0]), None if a[1] is None and b[1] is None else padd(a[1] or {}, b[1] or {}))
        if op == "mul":
            a, b = (m[x.id] for x in n.args)
            if len(a[0]) * len(b[0]) > 400:
                return self.opaque(n)
            return self.cm(a, b)
        if op == "pow":
            a = m[n.args[0].id]
            if (len(a[0]) > 3 and n.pl > 3) or n.pl > 6:
                return self.opaque(n)
            r = a
            for _ in range(n.pl - 1):
                r = self.cm(r, a)
                if len(r[0]) > 200:
                    return self.opaque(n)
            return r
        if op == "div":
            a, b = (m[x.id] for x in n.args)
            if b[1] is None and len(b[0]) == 1:
                (mo, c), = b[0].items()
                if all(x == PI for x, k in mo):
                    inv = {tuple((x, -k) for x, k in mo): 1 / c}
                    return (pmul(a[0], inv), None if a[1] is None else pmul(a[1], inv))
            q = self.opaque(n)
            if a[1] is None and b[1] is None:
                x, y, z = self.lin(a[0]), self.lin(b[0]), self.lin(q[0])
                self.ax += [z3.Implies(z3.And(x >= 0, y > 0), z >= 0), z3.Implies(z3.And(x <= 0, y > 0), z <= 0),
                            z3.Implies(z3.And(x > 0, y > 0), z > 0), z3.Implies(z3.And(x < 0, y > 0), z < 0),
                            z3.Implies(z3.And(y > 0, x <= y), z <= 1), z3.Implies(z3.And(y > 0, x < y), z < 1),
                            z3.Implies(z3.And(y > 0, x >= y), z >= 1), z3.Implies(z3.And(y > 0, x == y), z == 1),
                            z3.Implies(z3.And(x >= 0, y < 0), z <= 0), z3.Implies(z3.And(x <= 0, y < 0), z >= 0),
                            z3.Implies(z3.And(x > 0, y < 0), z < 0), z3.Implies(z3.And(x < 0, y < 0), z > 0)]
                if len(b[0]) <= 6:
                    # q * b = a over monomials
                    self.ax.append(z3.Implies(y != 0, self.lin(padd(pmul(q[0], b[0]), a[0], -1)) == 0))
            return q
        if op == "conj":
            a = m[n.args[0].id]
            return a if a[1] is None else (a[0], pscale(a[1], -1))
        if op == "re":
            return (m[n.args[0].id][0], None)
        if op == "im":
            return (m[n.args[0].id][1] or {}, None)
        if op == "ite":
            c, a, b = (m[x.id] for x in n.args)
            r = self.opaque(n)
            self.ax += [z3.Implies(c, self.lin(padd(r[0], a[0], -1)) == 0),
                        z3.Implies(z3.Not(c), self.lin(padd(r[0], b[0], -1)) == 0)]
            if r[1] is not None:
                self.ax += [z3.Implies(c, self.lin(padd(r[1], a[1] or {}, -1)) == 0),
                            z3.Implies(z3.Not(c), self.lin(padd(r[1], b[1] or {}, -1)) == 0)]
            return r
        if op == "fn":
            return self._fn(n)
        return self.opaque(n)

    def opaque(self, n):
        return (self.poly(self.atom("o", n)), None if n.real else self.poly(self.atom("oi", n)))

    def _fn(self, n):
        name = n.pl[0]
        a = self.memo[n.args[0].id] if n.args else None
        if a is not None and isinstance(a, tuple):
            re = self.lin(a[0])
            im = self.lin(a[1]) if a[1] is not None else None
        r = self.opaque(n)
        z = self.lin(r[0])
        ax = self.ax
        if name == "abs":
            ax.append(z >= 0)
            if im is None:
                ax.append(z == z3.If(re >= 0, re, -re))
            else:
                ax += [z >= re, z >= -re, z >= im, z >= -im, (z == 0) == z3.And(re == 0, im == 0), z <= z3.If(re >= 0, re, -re) + z3.If(im >= 0, im, -im)]
                if len(a[0]) <= 6 and len(a[1]) <= 6:
                    ax.append(self.lin(padd(pmul(r[0], r[0]), padd(pmul(a[0], a[0]), pmul(a[1], a[1])), -1)) == 0)
        elif name in ("sqrt", "cosasin"):
            ax.append(z >= 0)
            if name == "sqrt" and n.real:
                ax += [z3.Implies(re > 0, z > 0), z3.Implies(re == 0, z == 0), z3.Implies(re >= 1, z >= 1),
                       z3.Implies(re <= 1, z <= 1)]
                if len(a[0]) <= 8:
                    ax.append(z3.Implies(re >= 0, self.lin(padd(pmul(r[0], r[0]), a[0], -1)) == 0))
        elif name == "exp":
            if im is None:
                ax += [z > 0, z >= 1 + re, (re == 0) == (z == 1), (re < 0) == (z < 1)]
        elif name in ("sin", "cos") and n.real:
            ax += [z >= -1, z <= 1]
            p = self.zv[self.getpi()]
            if name == "sin":
                ax += [z3.Implies(z3.And(re >= 0, re <= p), z >= 0), z3.Implies(z3.And(re > 0, re < p), z > 0),
                       z3.Implies(z3.And(re <= 0, re >= -p), z <= 0)]
            else:
                ax += [z3.Implies(z3.And(re >= -p / 2, re <= p / 2), z >= 0),
                       z3.Implies(z3.And(re > -p / 2, re < p / 2), z > 0)]
        elif name == "floor":
            ax.append(z == z3.ToReal(z3.ToInt(re)))
        elif name == "sign":
            ax.append(z == z3.If(re < 0, _Q(-1), z3.If(re > 0, _Q(1), _Q(0))))
        elif name == "angle":
            p = self.zv[self.getpi()]
            ai = im if im is not None else _Q(0)
            self.units[self.atom("o", n)] = (-1, 1, True, False)
            ax += [z > -p, z <= p, z3.Implies(ai > 0, z3.And(z > 0, z < p)), z3.Implies(ai < 0, z < 0),
                   z3.Implies(z3.And(ai == 0, re >= 0), z == 0), z3.Implies(z3.And(ai == 0, re < 0), z == p)]
        elif name == "arctan" and n.real:
            p = self.zv[self.getpi()]
            self.units[self.atom("o", n)] = (-_Q("1/2"), _Q("1/2"), True, True)
            ax += [z > -p / 2, z < p / 2, (re > 0) == (z > 0), (re < 0) == (z < 0)]
        elif name in ("arcsin", "arccos") and n.real:
            p = self.zv[self.getpi()]
            if name == "arcsin":
                ax += [z >= -p / 2, z <= p / 2, (re > 0) == (z > 0), (re < 0) == (z < 0)]
            else:
                ax += [z >= 0, z <= p]
        elif name == "powr" and n.real:
            ax += [z3.Implies(re > 0, z > 0), z3.Implies(re == 0, z == 0)]
        elif name == "log" and n.real:
            ax += [z3.Implies(re > 1, z > 0), z3.Implies(z3.And(re < 1, re > 0), z < 0), z3.Implies(re == 1, z == 0)]
        elif name == "inf":
            ax.append(z > _Q("1000000000000000000000000000000"))
        elif name == "heaviside":
            ax += [z >= 0, z <= 1]
        return r


def unsat(facts, timeout=3000):
    t0 = time.time()
    smt.STATS["queries"] += 1
    try:
        tr = Lin()
        cs = [tr.bool(f) for f in facts]
    except Exception:
        return False
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("rlimit", 3_000_000)
    s.set("arith.nl", False)
    for c in tr.ax + cs:
        s.add(c)
    r = s.check()
    smt.STATS["time"] += time.time() - t0
    return r == z3.unsat
