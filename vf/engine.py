"""Contracts (harnesses) over the real code, verification conditions by symbolic execution, and their discharge.

A harness is one function h(E).  It runs in two worlds:
  * symbolic: every input is a term, arrays have axes of arbitrary length, the code of /repo is executed path by
    path and each E.eq / E.true / E.raises becomes an obligation that has to be proved under the path condition;
  * concrete: every input is a number, the unmodified code runs on NumPy, and the same obligations are evaluated.
    This is used to replay counterexamples, to cross-check the symbolic execution, and as a bounded check."""
from __future__ import annotations
import hashlib
import itertools
import json
import math
import numbers
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import terms as T
from . import sym as S
from . import ring as R
from .sym import Sym, SymArray, SymLen, Unsupported, parts
from . import shims, eig, smt

REG = []


class Harness:
    def __init__(self, prop, name, fn, funcs=(), n=24, dims="any", sym=True, conc=True, maxpaths=200, bounded=None,
                 trusted=(), weight=1, notes=""):
        self.prop, self.name, self.fn = prop, name, fn
        self.funcs, self.n, self.dims = list(funcs), n, dims
        self.sym, self.conc, self.maxpaths = sym, conc, maxpaths
        self.bounded = bounded
        self.trusted = list(trusted)
        self.weight = weight
        self.notes = notes


def harness(prop, name=None, **kw):
    def deco(fn):
        REG.append(Harness(prop, name or fn.__name__, fn, **kw))
        return fn
    return deco


class PathEnd(BaseException):
    """an assumption contradicts the path"""


class Skip(BaseException):
    """the sample violates a precondition"""


class Budget(BaseException):
    pass


# ------------------------------------------------------------------------------------------------ samples
def _rng(*key):
    return random.Random(hashlib.sha256(repr(key).encode()).hexdigest())


class Sample:
    """one concrete input of a harness, drawn lazily by name and recorded"""

    def __init__(self, key, fixed=None, plain=False):
        self.key = key
        self.rng = _rng("sample", key)
        self.fixed = dict(fixed or {})
        self.values = {}
        self.sizes = {}
        self.choices = {}
        self.plain = plain

    def r(self, name):
        return _rng("v", self.key, name)

    # scalars
    def real(self, name, lo, hi, special=(), lo_open=False, hi_open=False):
        if name in self.values:
            return self.values[name]
        if name in self.fixed:
            v = float(self.fixed[name])
        else:
            v = self._draw(self.r(name), lo, hi, special, lo_open, hi_open)
        self.values[name] = v
        return v

    def _draw(self, g, lo, hi, special=(), lo_open=False, hi_open=False):
        a = -10.0 if lo is None else float(lo)
        b = (a + 20.0 if lo is None or hi is not None else max(10.0, 2 * a + 10)) if hi is None else float(hi)
        if lo is None and hi is not None:
            a = b - 20.0
        u = g.random()
        if not self.plain:
            sp = list(special)
            if lo is not None and not lo_open:
                sp.append(lo)
            if hi is not None and not hi_open:
                sp.append(hi)
            if sp and u < 0.22:
                x = float(sp[g.randrange(len(sp))])
                if u < 0.05:
                    # close to a special value, not at it
                    y = x + g.choice((1, -1)) * 10.0 ** g.uniform(-5, -1)
                    if (lo is None or y > lo) and (hi is None or y < hi):
                        return y
                return x
            if u < 0.34:
                r = float(round(a + (b - a) * g.random()))
                if a <= r <= b and not (lo_open and r == a) and not (hi_open and r == b):
                    return r
        if a > 0 and b / a > 50 and g.random() < 0.5:
            return float(math.exp(math.log(a) + (math.log(b) - math.log(a)) * (0.001 + 0.998 * g.random())))
        return a + (b - a) * (0.001 + 0.998 * g.random())

    def cplx(self, name, re, im, special=()):
        if name in self.values:
            return self.values[name]
        if name in self.fixed:
            v = complex(self.fixed[name])
        else:
            g = self.r(name)
            if special and not self.plain and g.random() < 0.2:
                v = complex(special[g.randrange(len(special))])
            else:
                v = complex(self._draw(g, *re), self._draw(g, *im))
        self.values[name] = v
        return v

    def size(self, name, minimum, sizes):
        if name in self.sizes:
            return self.sizes[name]
        f = self.fixed.get("len:" + name)
        if f is not None:
            n = max(minimum, min(int(round(f)), 4000))
        else:
            g = self.r("len:" + name)
            n = g.choice([x for x in sizes if x >= minimum])
        self.sizes[name] = n
        return n

    def array(self, name, shape, draw, mode=None):
        """draw(rng) -> value ; the generic element may be fixed"""
        if name in self.values:
            return self.values[name]
        g = self.r(name)
        n = int(np.prod(shape, dtype=int))
        vals = [draw(g) for _ in range(n)]
        if mode == "axis" and not self.plain and len(shape) == 1 and n > 1:
            u = g.random()
            if u < 0.25:
                vals.sort()
            elif u < 0.4:
                vals.sort(reverse=True)
            elif u < 0.55:
                vals[g.randrange(n)] = vals[g.randrange(n)]
            elif u < 0.62:
                vals = [vals[0]] * n
            elif u < 0.74:
                s = sorted(vals)
                st = (s[-1] - s[0]) / max(1, n - 1)
                vals = [s[0] + i * st for i in range(n)]
        fx = self.fixed.get(name)
        a = np.array(vals)
        a = a.reshape(shape)
        if isinstance(fx, np.ndarray) and fx.shape == a.shape:
            a = fx.copy()
        elif fx is not None:
            for pos, v in fx.items():
                try:
                    a[pos] = v
                except (IndexError, ValueError):
                    pass
        self.values[name] = a
        return a

    def choice(self, name, options):
        if name in self.choices:
            return options[self.choices[name] % len(options)]
        f = self.fixed.get("choice:" + name)
        i = int(f) % len(options) if f is not None else self.r("choice:" + name).randrange(len(options))
        self.choices[name] = i
        return options[i]

    def dump(self):
        d = {}
        for k, v in self.values.items():
            if isinstance(v, np.ndarray):
                d[k] = {"array": [str(x) for x in v.ravel()], "shape": list(v.shape), "dtype": str(v.dtype)}
            else:
                d[k] = repr(v)
        return {"key": repr(self.key), "plain": self.plain, "values": d, "sizes": dict(self.sizes),
                "choices": dict(self.choices)}

    @staticmethod
    def load(d):
        fixed = {}
        for k, v in d["values"].items():
            if isinstance(v, dict):
                if v["dtype"].startswith("complex"):
                    a = np.array([complex(x) for x in v["array"]])
                else:
                    a = np.array([float(x) for x in v["array"]])
                fixed[k] = a.reshape(v["shape"]).astype(v["dtype"])
            else:
                fixed[k] = complex(v) if "j" in v else float(v)
        for k, v in d["sizes"].items():
            fixed["len:" + k] = v
        for k, v in d["choices"].items():
            fixed["choice:" + k] = v
        import ast
        try:
            key = ast.literal_eval(d["key"])
        except Exception:
            key = d["key"]
        return Sample(key, fixed, d.get("plain", False))

    # valuation of term variables
    def value_of(self, v, gpos=None):
        k, name, ix = v.pl
        if name.startswith("len:"):
            return self.sizes.get(name[4:])
        x = self.values.get(name)
        if x is None:
            return None
        if not ix:
            return x
        pos = []
        for d, i in ix:
            n = self.sizes.get(getattr(d, "name", None))
            if i is None:
                pos.append((gpos or {}).get(d.name, 0) % max(1, n or 1))
            elif isinstance(i, int):
                if n is not None and i < 0:
                    i += n
                if n is not None and not (0 <= i < n):
                    return None
                pos.append(i)
            else:
                pos.append((gpos or {}).get(i, 0) % max(1, n or 1))
        try:
            return x[tuple(pos)]
        except IndexError:
            return None


# ------------------------------------------------------------------------------------------------ math in both worlds
class _Math:
    """numpy-like functions usable in specifications, in both worlds"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(np, name)
        sh = shims.NP.get(name)

        def f(*a, **k):
            if any(shims.is_sym(x) for x in a) or any(shims.is_sym(x) for x in k.values()):
                if sh is None:
                    raise Unsupported(f"numpy.{name}")
                return sh(*a, **k)
            return real(*a, **k)
        f.__name__ = name
        setattr(self, name, f)
        return f

    @staticmethod
    def csqrt(x):
        """principal square root, complex"""
        if shims.is_sym(x):
            return shims.scim_sqrt(x)
        return np.lib.scimath.sqrt(x)

    @staticmethod
    def inv(x):
        return shims.LA["inv"](x) if shims.is_sym(x) else np.linalg.inv(x)

    @staticmethod
    def det(x):
        return shims.LA["det"](x) if shims.is_sym(x) else np.linalg.det(x)

    @staticmethod
    def linalg_eig(x):
        return eig.eig(x) if shims.is_sym(x) else np.linalg.eig(x)

    @staticmethod
    def expm(x):
        if shims.is_sym(x):
            return shims.expm(x)
        import scipy.linalg
        x = np.asarray(x)
        # matrix by matrix: scipy 1.18's batched expm returns wrong matrices
        return np.array([scipy.linalg.expm(a) for a in x.reshape((-1,) + x.shape[-2:])]).reshape(x.shape)


M = _Math()


# ------------------------------------------------------------------------------------------------ common part of E
class Env:
    m = M

    def angle(self, name, lo=-180.0, hi=180.0, **kw):
        return self.real(name, lo, hi, special=(0.0, 45.0, 90.0, 30.0), **kw)

    def wl(self, dim="N", name="lbda", lo=150.0, hi=3000.0, **kw):
        """an array of wavelengths of arbitrary length"""
        d = self.dim(dim, **kw)
        return self.rarray(name, (d,), lo, hi, axis=True)


# ------------------------------------------------------------------------------------------------ symbolic world
class SymEnv(Env):
    sym = True

    def __init__(self, run):
        self.run = run

    def real(self, name, lo=None, hi=None, special=(), lo_open=False, hi_open=False):
        v = T.rvar(name)
        self._range(v, lo, hi, lo_open, hi_open)
        return Sym(v, "f")

    def integer(self, name, lo, hi):
        v = T.rvar("int:" + name)
        self._range(v, lo, hi, False, False)
        return Sym(v, "i")

    def _range(self, v, lo, hi, lo_open, hi_open):
        r = self.run
        if lo is not None:
            r.add_base(T.cmp("<" if lo_open else "<=", T.lift(lo), v))
            if lo > 0 or (lo == 0):
                r.nonneg.add(v.id)
        if hi is not None:
            r.add_base(T.cmp("<" if hi_open else "<=", v, T.lift(hi)))

    def cplx(self, name, re=(None, None), im=(None, None), special=()):
        v = T.cvar(name)
        self._range(T.re(v), *(tuple(re[:2]) + (tuple(re[3:5]) if len(re) > 3 else (False, False))))
        self._range(T.im(v), *(tuple(im[:2]) + (tuple(im[3:5]) if len(im) > 3 else (False, False))))
        return Sym(v, "c")

    def dim(self, name, minimum=1, sizes=None):
        if self.run.fixed_dims is not None:
            n = self.run.fixed_sizes[name] = max(minimum, self.run.fixed_dims)
            return n
        d = self.run.dims.get(name)
        if d is None:
            d = _DIMS.get((name, minimum))
            if d is None:
                d = _DIMS[(name, minimum)] = T.Dim(name, minimum)
            self.run.dims[name] = d
            self.run.add_base(T.cmp("<=", T.const(minimum), d.node))
        return d

    def _arr(self, name, shape, mkvar, facts, kind):
        dims = tuple(s if isinstance(s, T.Dim) else None for s in shape)
        size = tuple(1 if isinstance(s, T.Dim) else s for s in shape)
        a = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            ix = tuple((dims[k] if dims[k] is not None else _CD, None if dims[k] is not None else i[k])
                       for k in range(len(size)))
            a[i] = mkvar(name, ix)
            facts(a[i])
        return S.mk(a, dims, kind)

    def rarray(self, name, shape, lo=None, hi=None, axis=False, special=(), lo_open=False, hi_open=False):
        return self._arr(name, shape, T.rvar, lambda v: self._range(v, lo, hi, lo_open, hi_open), "f")

    def carray(self, name, shape, re=(None, None), im=(None, None), special=()):
        def facts(v):
            self._range(T.re(v), *(tuple(re[:2]) + (tuple(re[3:5]) if len(re) > 3 else (False, False))))
            self._range(T.im(v), *(tuple(im[:2]) + (tuple(im[3:5]) if len(im) > 3 else (False, False))))
        return self._arr(name, shape, T.cvar, facts, "c")

    def position(self, d):
        """an arbitrary position on the axis d"""
        if isinstance(d, int):
            return self.choose("position", list(range(d)))
        return S.Pos(("pos", d.name))

    def choose(self, name, options):
        options = list(options)
        i = self.run.choice_log.get(name)
        if i is None:
            i = self.run.choice_log[name] = self.run.choose_index("choose:" + name, len(options))
        return options[i]

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathEnd()
            return
        if isinstance(cond, SymArray):
            cond = S.reduce_all(cond)
        n = S.n_bool(cond.node, cond.kind)
        self.run.assume_node(n)

    def lemma(self, label, cond):
        """a fact proved here and used from here on"""
        k = len(self.run.goals)
        self.true(label, cond)
        facts = list(self.run.facts())
        for g in self.run.goals[k:]:
            self.run.goal_facts[id(g)] = facts
        self.assume(cond)

    def root_hint(self, x):
        """declares that every element is the principal square root of its square"""
        for n in parts(x)[0].flat:
            self.run.hints.append(n)
            for q in (T.mul(n, n), T.powi(n, 2)):
                T.SQRT_HINTS[q.id] = n
                self.run.added_hints.append(q.id)

    def trig_atoms(self, x):
        """normalise with sin x as a variable and cos x as root of 1 - sin^2 (instead of exponentials)"""
        self.run.trig.append(parts(x)[0].flat[0])

    def lazy_splits(self):
        """case distinctions are not pruned before the proof in each case was tried"""
        self.run.lazy = True

    def square_hint(self, x):
        """its square has this (not necessarily principal) root"""
        for n in parts(x)[0].flat:
            self.run.square_hints.append(n)

    def rule(self, lead, rhs):
        """product of atoms = right side, assumed (must follow from the preconditions)"""
        self.run.rules.append(([parts(x)[0].flat[0] for x in lead], parts(rhs)[0].flat[0]))

    def eq(self, label, a, b, rtol=1e-6, atol=None, scale=None):
        self.run.goal_eq(label, a, b)

    def true(self, label, cond):
        self.run.goal_true(label, cond)

    def raises(self, label, excs, thunk):
        self.run.labels.add(label)
        try:
            thunk()
        except Unsupported:
            raise
        except excs:
            self.run.goals.append((label, "true", T.TRUE, None))
            return
        except Exception as e:
            self.run.goals.append((label, "exc", None, f"{type(e).__name__}: {e}"))
            return
        self.run.goals.append((label, "exc", None, "no exception raised"))

    def quiet_warnings(self):
        return warnings.catch_warnings()

    def pick(self, x, *idx):
        """element of an array at a concrete position of a symbolic axis is not available: use the array"""
        return x


_DIMS = {}
_CD = T.Dim("concrete")


class Run:
    """one execution path"""

    def __init__(self, prefix, h, fixed_dims=None, samples=()):
        self.h = h
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.base = []
        self.pc = []
        self.goals = []
        self.goal_facts = {}      # lemmas are proved from the facts known before them
        self.labels = set()
        self.dims = {}
        self.fixed_sizes = {}
        S.MEMBERS.clear()
        S.INDICES.clear()
        self.fixed_dims = fixed_dims
        self.nonneg = set()
        self.hints = []
        self.square_hints = []
        self.trig = []
        self.added_hints = []
        self.rules = []
        self.expm_calls = []
        self.lazy = False
        self.eig_calls = []
        self.wit = 0
        self.choice_log = {}
        self._session = None
        self._zero = {}

    # ---- facts
    def add_base(self, f):
        if f is not T.TRUE and f not in self.base:
            self.base.append(f)

    def facts(self):
        return self.base + self.pc

    def assume_node(self, n):
        if n is T.TRUE:
            return
        if n is T.FALSE:
            raise PathEnd()
        for f in self.expand(n):
            if f is T.FALSE:
                raise PathEnd()
            if T.bnot(f) in self.pc:
                raise PathEnd()
            if f not in self.pc:
                self.pc.append(f)

    def expand(self, n):
        """conjuncts of a fact; quantifiers are instantiated"""
        if n.op == "and":
            out = []
            for a in n.args:
                out += self.expand(a)
            return out
        if n.op == "ex":
            d = n.pl
            key = ("w", d.name, n.id)
            return self.expand(T.reindex(n.args[0], d, key)) + [n]
        if n.op == "not" and n.args[0].op == "ex":
            e = n.args[0]
            return self.expand(T.bnot(e.args[0])) + [n]
        if n.op == "not" and n.args[0].op == "not":
            return self.expand(n.args[0].args[0])
        if n.op == "not" and n.args[0].op == "cmp" and n.args[0].pl in ("<", "<="):
            c = n.args[0]
            return [T.cmp("<=" if c.pl == "<" else "<", c.args[1], c.args[0])]
        return [n]

    def smt_facts(self, extra=()):
        """facts (and extra ones) with universally quantified ones instantiated at the witnesses of the path"""
        fs = self.facts() + [f for f in extra if f.op != "ex"]
        wit = set()
        for f in fs:
            for v in T.walk([f]):
                if v.op == "v":
                    for d, i in v.pl[2]:
                        if isinstance(i, tuple):
                            wit.add((d, i))
        out = [f for f in fs if f.op != "ex" and not (f.op == "not" and f.args[0].op == "ex")]
        for d, i in sorted(wit, key=lambda t: repr(t[1])):
            for f in list(out):
                if d in f.dims:
                    try:
                        out.append(T.reindex(f, d, i))
                    except NotImplementedError:
                        pass
        return out

    # ---- decisions
    def choose_index(self, label, n):
        k = len(self.taken)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for j in range(1, n):
                self.pending.append(self.taken + [j])
        self.taken.append(c)
        return c

    def decide(self, n):
        if n.dims:
            raise Unsupported("truth value of a generic element")
        pos, negf = self._known(n)
        if pos or negf:
            return pos
        k = len(self.taken)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            check_deadline()
            t = smt.feasible(self.smt_facts(self.expand(n)), 400_000, 4000)
            f = smt.feasible(self.smt_facts(self.expand(T.bnot(n))), 400_000, 4000) if t else True
            if t and f:
                c = 1
                self.pending.append(self.taken + [0])
            else:
                c = 1 if t else 0
        self.taken.append(c)
        self.assume_node(n if c else T.bnot(n))
        return bool(c)

    def _known(self, n):
        pcs = set(f.id for f in self.facts())
        def holds(m):
            return all(f.id in pcs for f in self.expand(m) if f.op != "ex" or True)
        if n.op != "ex" and holds(n):
            return True, False
        if holds(T.bnot(n)) and not (n.op == "not" and n.args[0].op == "ex"):
            return False, True
        if n.id in pcs:
            return True, False
        if T.bnot(n).id in pcs:
            return False, True
        return False, False

    def quick_zero(self, n):
        if n is T.ZERO:
            return True
        r = self._zero.get(n.id)
        if r is None:
            try:
                r = self.session().is_zero(n)
            except Unsupported:
                r = False
            self._zero[n.id] = r
        return r

    def session(self):
        key = (tuple(h.id for h in self.hints), len(self.square_hints), len(self.rules), len(self.eig_calls), len(self.trig))
        if self._session is None or self._session[0] != key:
            rules = list(self.rules)
            for A, q, W in self.eig_calls:
                rules += eig_rules(A, q, W)
            self._session = (key, R.Session(self.hints, rules, self.square_hints, self.trig))
        return self._session[1]

    def const_ratio(self, l, r):
        """l/r is a constant within 1e-13 of one: the two differ by the rounding of a literal constant"""
        if l is T.ZERO or r is T.ZERO:
            return False
        s = self.session()

        def f(ring):
            a, b = ring.norm_node(l), ring.norm_node(r)
            if len(a.num) != len(b.num) or len(a.num) > 200 or not b.num:
                return False
            q = ring.rmul(a, ring.rinv(b))
            if q.den or list(q.num) != [0]:
                return False
            c = q.scale * q.num[0]
            return abs(c - 1) < R.Fraction(1, 10**13)
        return s.run(f)

    # ---- goals
    def goal_eq(self, label, a, b):
        self.labels.add(label)
        try:
            aa, ad, ak, am = parts(a)
            ba, bd, bk, bm = parts(b)
        except Unsupported as e:
            if isinstance(a, (str, bool, type(None), tuple, dict)) or isinstance(b, (str, bool, type(None), dict)):
                self.goals.append((label, "true", T.TRUE if a == b else T.FALSE, "values differ"))
                return
            raise
        if am is not None or bm is not None:
            raise Unsupported("masked selection in an obligation")
        if S.MEMBERS:
            from .members import loose
            if loose(a) is not None or loose(b) is not None:
                raise Unsupported("the value of one member of an arbitrary list in an obligation")
        if ak == "b" and bk == "b":
            c = S.binary("equal", a, b)
            self.goal_true(label, c)
            return
        if aa.ndim != ba.ndim and aa.ndim and ba.ndim:
            self.goals.append((label, "true", T.FALSE, f"ranks differ: {aa.shape} and {ba.shape}"))
            return
        try:
            shape, dims = S.broadcast_dims([(aa, ad), (ba, bd)])
        except ValueError:
            self.goals.append((label, "true", T.FALSE, f"shapes differ: {aa.shape} and {ba.shape}"))
            return
        if aa.ndim == ba.ndim and aa.ndim:
            for x, y, p, q in zip(aa.shape, ba.shape, ad, bd):
                if x != y or (p is None) != (q is None):
                    self.goals.append((label, "true", T.FALSE, f"shapes differ: {aa.shape} and {ba.shape}"))
                    return
        A, B = np.broadcast_to(aa, shape), np.broadcast_to(ba, shape)
        for i in np.ndindex(*shape):
            l, r = A[i], B[i]
            if ak == "b":
                l = S.n_num(l, "b")
            if bk == "b":
                r = S.n_num(r, "b")
            self.goals.append((label, "eq", (l, r), (i, dims)))

    def goal_true(self, label, cond):
        self.labels.add(label)
        if isinstance(cond, (bool, np.bool_)):
            self.goals.append((label, "true", T.TRUE if cond else T.FALSE, None))
            return
        a, d, k, m = parts(cond)
        for i in np.ndindex(*a.shape):
            self.goals.append((label, "true", S.n_bool(a[i], k), (i, d)))


def eig_rules(A, q, W):
    n = len(A)
    out = []
    for i in range(n):
        for k in range(n):
            s = T.ZERO
            for j in range(n):
                s = T.add(s, T.mul(A[i][j], W[j][k]))
            out.append(([q[k], W[i][k]], s))
    return out


# ------------------------------------------------------------------------------------------------ discharge
class Prover:
    NUMTOL = 1e-20

    def __init__(self, run):
        self.run = run
        self.splits = 0

    def simplify(self, nodes, facts):
        """resolve conditions and absolute values that the facts decide"""
        fid = set(f.id for f in facts)

        def cond(c, depth=0):
            if c is T.TRUE or c is T.FALSE:
                return c
            if c.id in fid:
                return T.TRUE
            if T.bnot(c).id in fid:
                return T.FALSE
            if c.op == "cmp" and c.pl in ("<", "<="):
                o = T.cmp("<=" if c.pl == "<" else "<", c.args[1], c.args[0])
                if o.id in fid or o is T.TRUE:
                    return T.FALSE
                if c.pl == "<=" and T.cmp("<", *c.args).id in fid:
                    return T.TRUE
            if c.op == "not":
                r = cond(c.args[0])
                return T.FALSE if r is T.TRUE else T.TRUE if r is T.FALSE else c
            if c.op == "and":
                rs = [cond(a) for a in c.args]
                if T.FALSE in rs:
                    return T.FALSE
                return T.band(*rs)
            return c

        def f(n):
            if n.op in ("cmp", "not", "and", "ex"):
                r = cond(n)
                if r is not n:
                    return r
            return None
        out = T.subst(nodes, f)
        return out

    def substitute(self, nodes, facts):
        """use equality facts that define a variable"""
        m = {}
        for f in facts:
            if f.op == "cmp" and f.pl == "==":
                a, b = f.args
                for x, y in ((a, b), (b, a)):
                    # c v = d with constants c, d
                    if x.op == "mul" and y.op == "c":
                        p, q = x.args if x.args[0].op == "c" else x.args[::-1]
                        if p.op == "c" and q.op == "v":
                            a, b = q, T.div(y, p)
                for x, y in ((a, b), (b, a)):
                    if x.op in ("v", "re", "im") and x.id not in m and not any(z is x for z in T.walk([y])):
                        if x.op == "v":
                            m[x.id] = y
                            break
                        if x.op in ("re", "im") and x.args[0].op == "v":
                            m[x.id] = y
                            break
            elif f.op == "not" or f.op == "cmp":
                pass
        if not m:
            return nodes
        reim = {}
        for k, y in m.items():
            x = next(z for z in T._table.values() if z.id == k) if False else None
        for _ in range(4):
            new = T.subst(nodes, lambda n: m.get(n.id))
            if all(p is q for p, q in zip(new, nodes)):
                break
            nodes = new
        # complex variables whose real or imaginary part is known
        cv = {}
        for f in facts:
            if f.op == "cmp" and f.pl == "==":
                for x, y in (f.args, f.args[::-1]):
                    if x.op in ("re", "im") and x.args[0].op == "v":
                        v = x.args[0]
                        if v.id not in cv and v not in [z for z in T.walk([y])]:
                            cv[v.id] = T.add(y, T.mul(T.I, T.rvar(v.pl[1] + ".im", v.pl[2]))) if x.op == "re" else \
                                T.add(T.rvar(v.pl[1] + ".re", v.pl[2]), T.mul(T.I, y))
        if cv:
            nodes = T.subst(nodes, lambda n: cv.get(n.id))
        return nodes

    def eq(self, l, r, facts, depth=0):
        """None if proved, otherwise a list of (extra facts, reason) describing the open cases"""
        check_deadline()
        if l is r and not any(m.op == "fn" and m.pl[0] == "nan" for m in T.walk([l])):
            return None
        l, r = self.substitute([l, r], facts)
        l, r = self.simplify([l, r], facts)
        if any(m.op == "fn" and m.pl[0] == "nan" for m in T.walk([l, r])):
            if any(m.op == "ite" for m in T.walk([l, r])):
                pass
            else:
                return [(facts, "undefined value (division by zero)")]
        elif l is r:
            return None
        # case split on conditions (never on the element a sum runs over: it is a different one for each term)
        bound = set(m.pl for m in T.walk([l, r]) if m.op == "sum")
        conds = [m.args[0] for m in T.walk([l, r]) if m.op == "ite" and not (m.args[0].dims & bound)]
        if conds:
            c = min(conds, key=lambda n: (len(T.walk([n])), n.id))
            return self.split(c, facts, depth, lambda fs: self.eq(l, r, fs, depth + 1))
        # absolute values of real numbers
        l, r = self.canon_abs([l, r])
        if l is r:
            return None
        for m in T.walk([l, r]):
            if m.op == "fn" and m.pl[0] == "abs" and m.args[0].real and not (m.args[0].dims & bound):
                c = T.cmp("<=", T.ZERO, m.args[0])
                def go(fs, m=m, c=c):
                    pos = c in fs
                    v = m.args[0] if pos else T.neg(m.args[0])
                    a, b = T.subst([l, r], lambda n: v if n is m else None)
                    return self.eq(a, b, fs, depth + 1)
                return self.split(c, facts, depth, go)
        why = "not an identity of the ring"
        try:
            if self.session().is_zero(T.sub(l, r)):
                return None
            if self.run.const_ratio(l, r):
                return None
            if bound and self.same_sums(l, r):
                return None
        except Unsupported as e:
            why = f"ring: {e}"
        except ZeroDivisionError:
            why = "ring: division by zero"
        size = len(T.walk([l, r]))
        if size < 300:
            if smt.implied(self.inst(facts), T.cmp("==", l, r), 3_000_000, 15000):
                return None
            why += "; z3 did not prove it"
        return [(facts, why)]

    def same_sums(self, l, r):
        """equal once sums with equal terms are the same sum"""
        sums = sorted((m for m in T.walk([l, r]) if m.op == "sum"), key=lambda m: m.id)
        if not 2 <= len(sums) <= 12:
            return False
        rep, keep = {}, []
        for m in sums:
            for k in keep:
                if k.pl is m.pl and self.session().is_zero(T.sub(m.args[0], k.args[0])):
                    rep[m.id] = k
                    break
            else:
                keep.append(m)
        if not rep:
            return False
        l, r = T.subst([l, r], lambda n: rep.get(n.id))
        return l is r or self.session().is_zero(T.sub(l, r))

    def canon_abs(self, nodes):
        """absolute values (of equal or opposite arguments, in the ring) become the same term"""
        ab = sorted((m for m in T.walk(nodes) if m.op == "fn" and m.pl[0] == "abs"), key=lambda m: m.id)
        if len(ab) < 2 or len(ab) > 12:
            return nodes
        rep = {}
        keep = []
        for m in ab:
            for k in keep:
                x, y = m.args[0], k.args[0]
                try:
                    if self.session().is_zero(T.sub(x, y)) or self.session().is_zero(T.add(x, y)):
                        rep[m.id] = k
                        break
                except (Unsupported, ZeroDivisionError):
                    continue
            else:
                keep.append(m)
        return T.subst(nodes, lambda n: rep.get(n.id)) if rep else nodes

    def session(self):
        return self.run.session()

    def inst(self, facts):
        old = self.run.pc
        base = set(f.id for f in self.run.base)
        self.run.pc = [f for f in facts if f.id not in base]
        try:
            return self.run.smt_facts()
        finally:
            self.run.pc = old

    def split(self, c, facts, depth, cont):
        if depth > 14:
            return [(facts, "too many case distinctions")]
        out = []
        pos = [f for f in self.run.expand(c)]
        negs = [f for f in self.run.expand(T.bnot(c))]
        # a branch is dropped at once if linear arithmetic refutes it, and with the full solver only if the proof fails in it
        for extra in ([c] + pos, [T.bnot(c)] + negs):
            fs = self.inst(facts + [f for f in extra if f.op != "ex"])
            if not self.run.lazy and smt.refuted(fs):
                continue
            r = cont(facts + [f for f in extra if f not in facts])
            if r and smt.feasible(fs, 600_000, 5000):
                out += r
        return out or None

    def true(self, n, facts, depth=0):
        check_deadline()
        n = self.substitute([n], facts)[0]
        n = self.simplify([n], facts)[0]
        if n is T.TRUE:
            return None
        if n is T.FALSE:
            if not smt.feasible(self.inst(facts), 3_000_000, 15000):
                return None
            return [(facts, "the condition is false")]
        if n.op == "and":
            out = []
            for a in n.args:
                r = self.true(a, facts, depth)
                if r:
                    out += r
            return out or None
        if n.op == "cmp" and n.pl == "==":
            return self.eq(n.args[0], n.args[1], facts, depth)
        if n.op == "not" and n.args[0].op == "ex":
            return self.true(T.bnot(n.args[0].args[0]), facts, depth)
        inst = self.inst(facts)
        if smt.implied(inst, n, 4_000_000, 20000):
            return None
        bound = set(m.pl for m in T.walk([n]) if m.op == "sum")
        conds = [m.args[0] for m in T.walk([n]) if m.op == "ite" and not (m.args[0].dims & bound)]
        if conds and depth < 8:
            c = min(conds, key=lambda k: (len(T.walk([k])), k.id))
            return self.split(c, facts, depth, lambda fs: self.true(n, fs, depth + 1))
        return [(facts, "z3 did not prove it")]


# ------------------------------------------------------------------------------------------------ concrete world
class ConcEnv(Env):
    sym = False

    def __init__(self, sample, sizes=(1, 2, 3, 5, 8, 17, 33)):
        self.s = sample
        self.sizes = sizes
        self.fail = []          # (label, message)
        self.counts = {}
        self.record = {}

    def real(self, name, lo=None, hi=None, special=(), lo_open=False, hi_open=False):
        v = self.s.real(name, lo, hi, special, lo_open, hi_open)
        self._chk(v, lo, hi, lo_open, hi_open)
        return v

    def integer(self, name, lo, hi):
        v = self.s.real("int:" + name, lo, hi)
        v = int(round(v))
        self._chk(v, lo, hi, False, False)
        self.s.values["int:" + name] = float(v)
        return v

    @staticmethod
    def _chk(v, lo, hi, lo_open=False, hi_open=False):
        if lo is not None and not (v > lo if lo_open else v >= lo):
            raise Skip()
        if hi is not None and not (v < hi if hi_open else v <= hi):
            raise Skip()

    def cplx(self, name, re=(None, None), im=(None, None), special=()):
        v = self.s.cplx(name, re, im, special)
        self._chk(v.real, *(tuple(re[:2]) + (tuple(re[3:5]) if len(re) > 3 else (False, False))))
        self._chk(v.imag, *(tuple(im[:2]) + (tuple(im[3:5]) if len(im) > 3 else (False, False))))
        return v

    def dim(self, name, minimum=1, sizes=None):
        return self.s.size(name, minimum, sizes or self.sizes)

    def rarray(self, name, shape, lo=None, hi=None, axis=False, special=(), lo_open=False, hi_open=False):
        a = self.s.array(name, tuple(shape), lambda g: self.s._draw(g, lo, hi, special, lo_open, hi_open),
                         "axis" if axis else None)
        for v in np.ravel(a):
            self._chk(v, lo, hi, lo_open, hi_open)
        a = a.copy()
        if axis and not self.s.plain and self.s.r("dtype:" + name).random() < 0.12 and lo is not None and hi - lo > 20:
            b = np.round(a)
            if b.min() >= lo and b.max() <= hi:
                self.s.values[name] = b.copy()
                a = b.astype(int) if "dtype:" + name not in self.s.fixed else b
        return a

    def carray(self, name, shape, re=(None, None), im=(None, None), special=()):
        def draw(g):
            if special and not self.s.plain and g.random() < 0.2:
                return complex(special[g.randrange(len(special))])
            return complex(self.s._draw(g, *re), self.s._draw(g, *im))
        a = self.s.array(name, tuple(shape), draw)
        return np.asarray(a, dtype=complex).copy()

    def position(self, d):
        return self.choose("position", list(range(d)))

    def choose(self, name, options):
        return self.s.choice(name, list(options))

    def assume(self, cond):
        if not np.all(cond):
            raise Skip()

    def lemma(self, label, cond):
        pass

    def root_hint(self, x):
        pass

    def rule(self, lead, rhs):
        pass

    def square_hint(self, x):
        pass

    def lazy_splits(self):
        pass

    def trig_atoms(self, x):
        pass

    def eq(self, label, a, b, rtol=1e-6, atol=None, scale=None):
        self.counts[label] = self.counts.get(label, 0) + 1
        if isinstance(b, (str, type(None), dict)) or isinstance(a, (str, type(None), dict)):
            if not a == b:
                self.fail.append((label, f"{a!r} instead of {b!r}"))
            return
        try:
            x, y = np.asarray(a), np.asarray(b)
        except Exception as e:
            self.fail.append((label, f"not comparable: {e}"))
            return
        if x.dtype == object:
            x = x.astype(complex)
        if y.dtype == object:
            y = y.astype(complex)
        self.record.setdefault(label, []).append((x, y))
        if x.shape != y.shape and x.ndim and y.ndim:
            self.fail.append((label, f"shape {x.shape} instead of {y.shape}"))
            return
        if x.dtype == bool and y.dtype == bool:
            if not np.all(x == y):
                self.fail.append((label, "boolean values differ"))
            return
        with np.errstate(all="ignore"):
            ok_ref = np.isfinite(y)
            mx = np.max(np.abs(np.where(ok_ref, y, 0)), initial=0.0)
            at = 1e-9 * mx if atol is None else atol
            if scale is not None:
                at = max(at, 1e-9 * float(np.max(np.abs(scale))))
            d = np.abs(x - y)
            lim = rtol * np.maximum(np.abs(x), np.abs(y)) + at + 1e-300
            lim = np.where(np.isfinite(lim), lim, 0)
            bad = ~(d <= lim) & ok_ref
        if np.any(bad):
            x, y, bad = np.broadcast_arrays(x, y, bad)
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail.append((label, f"{x[i]!r} instead of {y[i]!r} at index {i}" if i else f"{x[()]!r} instead of {y[()]!r}"))

    def true(self, label, cond):
        self.counts[label] = self.counts.get(label, 0) + 1
        if not np.all(cond):
            self.fail.append((label, "the condition is false"))

    def raises(self, label, excs, thunk):
        self.counts[label] = self.counts.get(label, 0) + 1
        try:
            thunk()
        except excs:
            return
        except Exception as e:
            self.fail.append((label, f"{type(e).__name__} raised: {e}"))
            return
        self.fail.append((label, "no exception raised"))


def run_concrete(h, sample):
    """-> (status, fails, env); status 'ok', 'skip', 'exc'"""
    env = ConcEnv(sample)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            h.fn(env)
    except Skip:
        return "skip", [], env
    except Budget:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        env.fail.append(("no-exception", f"{type(e).__name__}: {e} ({where})"))
        return "exc", env.fail, env
    return "ok", env.fail, env


# ------------------------------------------------------------------------------------------------ driver per harness
_DEADLINE = [None]


def check_deadline():
    if _DEADLINE[0] is not None and time.time() > _DEADLINE[0]:
        raise Budget()


def explore(h, fixed_dims=None, log=None):
    """symbolic execution of a harness; yields finished runs"""
    work = [[]]
    runs = 0
    while work:
        check_deadline()
        if runs >= h.maxpaths:
            yield None, "path limit", len(work)
            return
        prefix = work.pop()
        run = Run(prefix, h, fixed_dims)
        runs += 1
        S.Hooks.decide = run.decide
        S.Hooks.run = run
        S.Hooks.loop = None
        eig.Ctx.cur = run
        shims.NONNEG[0] = lambda n, r=run: n.id in r.nonneg or nonneg_node(n, r)
        T.SQRT_HINTS.clear()
        err = None
        try:
            with shims.installed(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.fn(SymEnv(run))
        except PathEnd:
            err = ("end", "")
        except Unsupported as e:
            err = ("unsupported", str(e) + " @ " + _where(e))
        except Budget:
            raise
        except RecursionError:
            err = ("unsupported", "recursion")
        except Exception as e:
            err = ("exc", f"{type(e).__name__}: {e} @ {_where(e)}")
        work += run.pending
        yield run, err, None


def _where(e):
    tb = [f for f in traceback.extract_tb(e.__traceback__)]
    pick = [f for f in tb if "/repo/" in f.filename] or tb
    f = pick[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def nonneg_node(n, run):
    if n.op == "mul":
        return n.args[0] is n.args[1] and n.args[0].real or \
            all((a.op == "c" and a.real and a.pl[0] >= 0) or a.id in run.nonneg or nonneg_node(a, run) for a in n.args)
    if n.op in ("add", "div"):
        return all((a.op == "c" and a.real and a.pl[0] >= 0) or a.id in run.nonneg or nonneg_node(a, run) for a in n.args)
    if n.op == "pi":
        return True
    if n.op == "pow":
        return n.args[0].real and (n.pl % 2 == 0 or nonneg_node(n.args[0], run) or n.args[0].id in run.nonneg)
    if n.op == "fn":
        return n.pl[0] == "abs" or (n.real and n.pl[0] in ("sqrt", "exp"))
    return n.id in run.nonneg


class Valuation(dict):
    """term variables -> values of a sample (generic position g)"""

    def __init__(self, sample, gpos):
        super().__init__()
        self.s, self.g = sample, gpos

    def __contains__(self, v):
        return self.s.value_of(v, self.g) is not None

    def __getitem__(self, v):
        return self.s.value_of(v, self.g)


def mkextra(val, dps):
    def extra(n):
        d = n.pl
        N = val.s.sizes.get(d.name)
        if N is None:
            raise T.EvalError("length unknown")
        if N > 40:
            raise T.EvalError("too long")
        vals = [T.evaluate([T.reindex(n.args[0], d, i)], val, dps, extra)[0] for i in range(N)]
        if n.op == "ex":
            return any(vals)
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        return r
    return extra


def neval(nodes, sample, gpos, dps=30):
    val = Valuation(sample, gpos)
    return T.evaluate(nodes, val, dps, mkextra(val, dps))


def holds(facts, sample, gpos):
    """do the facts hold at the sample (None: cannot be evaluated)"""
    for f in facts:
        try:
            if not neval([f], sample, gpos)[0]:
                return False
        except (T.EvalError, NotImplementedError, KeyError):
            return None
    return True


def model_samples(run, facts, key, tries=3):
    """concrete samples that are meant to satisfy the facts"""
    fs = []
    base = set(f.id for f in run.base)
    old = run.pc
    run.pc = [f for f in facts if f.id not in base]
    try:
        fs = run.smt_facts()
    finally:
        run.pc = old
    out = []
    res, mv = smt.solve(fs, 3_000_000, 8000, model=True)
    choices = {}
    if res == "unsat":
        return "unsat", []
    if res == "sat":
        for t in range(tries):
            s = Sample((key, "model", t), plain=True)
            arr = {}
            wpos = {}
            for v, x in mv.items():
                k, name, ix = v.pl
                if name.startswith("len:"):
                    s.fixed[name] = max(x, 1)
                elif not ix:
                    s.fixed[name] = x
                else:
                    arr.setdefault(name, []).append((ix, x))
            for name, lst in arr.items():
                d = {}
                for ix, x in lst:
                    pos = []
                    for dd, i in ix:
                        if i is None:
                            pos.append(0)
                        elif isinstance(i, int):
                            pos.append(i)
                        else:
                            p = wpos.setdefault(i, 1 + len(wpos))
                            pos.append(p)
                            nm = "len:" + dd.name
                            s.fixed[nm] = max(s.fixed.get(nm, 1), p + 1)
                    d[tuple(pos)] = x
                s.fixed[name] = d
            s.wpos = wpos
            for name, i in run.choice_log.items():
                s.fixed["choice:" + name] = i
            for name, n in run.fixed_sizes.items():
                s.fixed["len:" + name] = n
            out.append(s)
    return res, out


def verify(h, seed, tier, quick_budget):
    """full treatment of one harness -> dict"""
    t0 = time.time()
    res = {"harness": h.name, "prop": h.prop, "labels": {}, "violations": [], "paths": 0, "notes": [],
           "concrete": 0, "skipped": 0, "contracts": {}, "mismatch": [], "assumed": list(h.trusted), "checks": 0,
           "vc": 0, "vc_proved": 0, "samples": []}
    shims.CONTRACTS.clear()
    funcs = set()
    # ---------------------------------------------------------------- concrete
    good = []
    seen_fail = set()

    def conc(sample, origin):
        st, fails, env = run_concrete(h, sample)
        if st == "skip":
            res["skipped"] += 1
            return st, []
        res["concrete"] += 1
        res["checks"] += sum(env.counts.values())
        for lab, msg in fails:
            if lab not in seen_fail:
                seen_fail.add(lab)
                res["violations"].append({"label": lab, "message": msg, "origin": origin, "sample": sample.dump(),
                                          "harness": h.name})
        return st, fails, env

    n = h.n if tier == "quick" else h.n * 12
    if h.conc:
        i = done = 0
        tstart = time.time()
        while done < n and i < n * 12:
            try:
                check_deadline()
            except Budget:
                res["notes"].append("time budget reached during concrete checks")
                break
            if time.time() - tstart > (60 if tier == "quick" else 400):
                res["notes"].append("concrete checks stopped after their time share")
                break
            s = Sample((h.prop, h.name, seed, i), plain=(i % 5 == 4))
            i += 1
            if done == 0:
                with Trace(funcs):
                    r = conc(s, "sampled input")
            else:
                r = conc(s, "sampled input")
            if r[0] != "skip":
                done += 1
                if r[0] == "ok" and not r[1] and len(good) < 12:
                    good.append((s, r[2]))
                if len(res["samples"]) < 1:
                    res["samples"].append(s.dump())
        if done == 0 and n:
            res["notes"].append("VACUOUS: no sample satisfies the preconditions")
    # ---------------------------------------------------------------- symbolic
    if res["violations"] and _DEADLINE[0] is not None:
        # a failing input is known: the proofs that still go through are reported, the others are not worth the time
        _DEADLINE[0] = min(_DEADLINE[0], time.time() + 45)
    if h.sym:
        modes = [None]
        if h.dims == "any":
            modes = [None]
        elif isinstance(h.dims, (list, tuple)):
            modes = list(h.dims)
        outcome = {}
        try:
            ok = symbolic(h, None if modes == [None] else modes[0], res, outcome, good, conc, seed, tier)
            if modes != [None]:
                for m in modes[1:]:
                    symbolic(h, m, res, outcome, good, conc, seed, tier)
            elif not ok:
                # the code does not treat the axis uniformly: bounded lengths
                res["notes"].append("axis of arbitrary length not supported by the engine here: lengths 1, 2, 3 instead")
                outcome2 = {}
                for m in (1, 2, 3):
                    symbolic(h, m, res, outcome2, good, conc, seed, tier)
                for k, v in outcome2.items():
                    if v["status"] == "proved":
                        v["status"] = "proved-bounded"
                        v["bound"] = "axis lengths 1, 2, 3"
                outcome = outcome2
        except Budget:
            res["notes"].append("time budget reached during symbolic execution")
            for v in outcome.values():
                if v["status"].startswith("proved"):
                    v["status"] = "undecided"
                    v["why"] = "time budget"
        for k, v in outcome.items():
            if h.bounded and v["status"] == "proved":
                v["status"] = "proved-bounded"
                v["bound"] = h.bounded
        if res["mismatch"]:
            for v in outcome.values():
                if v["status"].startswith("proved"):
                    v["status"] = "undecided"
                    v["why"] = "symbolic execution disagrees with CPython: " + res["mismatch"][0]
        res["labels"] = outcome
    res["contracts"] = dict(shims.CONTRACTS)
    res["funcs"] = sorted(funcs)
    res["wall"] = time.time() - t0
    res["smt"] = dict(smt.STATS)
    return res


class Trace:
    """names of the functions of /repo executed"""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        self.old = sys.getprofile()

        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if "/elli/" in c.co_filename and not c.co_name.startswith("<"):
                    self.out.add(c.co_filename.split("/elli/")[-1] + ":" + c.co_qualname)
        sys.setprofile(prof)

    def __exit__(self, *a):
        sys.setprofile(self.old)


def symbolic(h, fixed, res, outcome, good, conc, seed, tier):
    """one symbolic exploration; returns False if the engine cannot treat an arbitrary axis length"""
    first_unsupported = None
    finished = 0
    used_samples = 0

    def put(label, status, why=None, **kw):
        rank = {"proved": 0, "undecided": 1, "unsupported": 2, "open": 3, "refuted": 4}
        o = outcome.setdefault(label, {"status": "proved", "n": 0, "why": None})
        o["n"] += 1
        res["vc"] += 1
        if status == "proved":
            res["vc_proved"] += 1
        if rank[status] > rank[o["status"]]:
            o["status"], o["why"] = status, why
            o.update(kw)

    for run, err, extra in explore(h, fixed):
        if run is None:
            for o in outcome.values():
                if o["status"] == "proved":
                    o["status"], o["why"] = "undecided", f"path limit {h.maxpaths} reached"
            res["notes"].append(f"path limit {h.maxpaths} reached, {extra} paths unexplored")
            break
        res["paths"] += 1
        if err and err[0] == "unsupported":
            if fixed is None and run.dims and first_unsupported is None and finished == 0:
                res["notes"].append("unsupported: " + err[1])
                return False
            first_unsupported = err[1]
            res["notes"].append("unsupported: " + err[1])
            for lab in set(g[0] for g in run.goals) | {"*"}:
                put(lab, "unsupported", err[1])
            continue
        if err and err[0] == "end" and not run.goals:
            continue
        finished += 1
        facts = run.facts()
        if err and err[0] == "exc":
            # an exception on this path: violated unless the path is impossible
            if not smt.feasible(run.smt_facts(), 6_000_000, 20000):
                continue
            st, samples = model_samples(run, facts, (h.prop, h.name, seed, "exc", res["paths"]))
            hit = replay(h, run, facts, samples, good, conc, "no-exception")
            if hit == "hit":
                put("no-exception", "refuted", err[1])
            else:
                put("no-exception", "unsupported", "exception in symbolic execution, not reproduced: " + err[1])
                res["notes"].append("exception in symbolic execution: " + err[1])
            continue
        P = Prover(run)
        todo = []
        for goal in run.goals:
            label, kind, x, info = goal
            gf = run.goal_facts.get(id(goal), facts)
            if kind == "eq":
                r = P.eq(x[0], x[1], gf)
            elif kind == "true":
                r = P.true(x, gf)
            else:
                r = [(facts, x or info)] if smt.feasible(run.smt_facts(), 6_000_000, 20000) else None
            if r is not None and len(r) <= 40:
                r = [c for c in r if smt.feasible(P.inst(c[0]), 2_000_000, 6000)] or None
            if r is None:
                put(label, "proved")
            else:
                todo.append((goal, r))
        for goal, cases in todo:
            label, kind, x, info = goal
            st = settle(h, run, goal, cases, good, conc, res, seed)
            put(label, st[0], st[1])
        if run.goals:
            put("no-exception", "proved")
        # cross-check of the symbolic execution against CPython
        if used_samples < 3 and not run.eig_calls:
            used_samples += crosscheck(h, run, good, res)
    if fixed is None and first_unsupported and finished == 0:
        return False
    return True


def perturbations(s, n=120):
    """samples near s: one scalar (or one entry of an array) moved by a small amount, or all of them"""
    g = _rng("perturb", s.key)
    names = sorted(k for k, v in s.values.items()
                   if not k.startswith("int:") and not isinstance(v, str))
    for t in range(n if names else 0):
        c = Sample(s.key, plain=s.plain)
        c.sizes, c.choices = dict(s.sizes), dict(s.choices)
        c.values = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in s.values.items()}
        if hasattr(s, "wpos"):
            c.wpos = s.wpos
        for k in (names if t % 4 == 3 else [names[(t // 2) % len(names)]]):
            step = 10.0 ** g.uniform(-9, 0.5) * g.choice((1, -1))
            v = c.values[k]
            one = isinstance(v, np.ndarray)
            ix = tuple(g.randrange(d) for d in v.shape) if one and v.size else None
            if one and ix is None:
                continue
            x = v[ix] if one else v
            if isinstance(x, (complex, np.complexfloating)):
                x = x + step * g.choice((1, 1j))
            else:
                x = float(x) + step
            if not one:
                c.values[k] = x
            elif g.random() < 0.5 and v.dtype.kind in "fc":
                v[ix] = x
            elif v.dtype.kind in "fc":
                v += step
        yield c


def fixed_copy(s):
    c = Sample(s.key, dict(s.values), plain=s.plain)
    for k, v in s.sizes.items():
        c.fixed["len:" + k] = v
    for k, v in s.choices.items():
        c.fixed["choice:" + k] = v
    if hasattr(s, "wpos"):
        c.wpos = s.wpos
    return c


def between(a, b, t):
    """the sample at the fraction t of the way from a to b (same sizes and choices)"""
    c = Sample(a.key, plain=a.plain)
    c.sizes, c.choices = dict(a.sizes), dict(a.choices)
    for k, v in a.values.items():
        w = b.values.get(k)
        if k.startswith("int:") or w is None or isinstance(v, str):
            c.values[k] = v
        elif isinstance(v, np.ndarray):
            if w.shape != v.shape or v.dtype.kind not in "fc":
                c.values[k] = v.copy()
            else:
                c.values[k] = v + t * (w - v)
        else:
            c.values[k] = v + t * (w - v)
    return c


def search_between(h, run, facts, good):
    """samples that satisfy the facts, looked for on the lines joining inputs that satisfy some of them: by bisection
    between an input at which a fact is false and one at which it is true"""
    ss = [s for s, env in good if h_choices(run, s)]
    t0 = time.time()
    out = []
    plain = [f for f in facts if f.op != "ex" and not (f.op == "not" and f.args[0].op == "ex")]
    truth = {}

    def val(f, s):
        try:
            return bool(neval([f], s, getattr(s, "wpos", {}))[0])
        except (T.EvalError, NotImplementedError, KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return None
    for s in ss:
        truth[id(s)] = [val(f, s) for f in plain]
    pairs = [(a, b) for a in ss for b in ss if a is not b and a.sizes == b.sizes and a.choices == b.choices]
    _rng("pairs", h.name).shuffle(pairs)
    for a, b in pairs[:30]:
        for j, f in enumerate(plain):
            if truth[id(a)][j] is not False or truth[id(b)][j] is not True:
                continue
            lo, hi = 0.0, 1.0
            for _ in range(24):
                if time.time() - t0 > 8 or len(out) >= 3:
                    return out
                mid = (lo + hi) / 2
                c = between(a, b, mid)
                v = val(f, c)
                if v is None:
                    break
                if v and holds_at(run, facts, c):
                    out.append(c)
                    break
                if v:
                    hi = mid
                else:
                    lo = mid
    return out


def far(kind, x, s, gpos=None):
    """how far the goal is from being true at the sample, judged numerically (None: cannot be evaluated)"""
    try:
        if kind == "eq":
            l, r = neval([x[0], x[1]], s, gpos or {}, 30)
            d = abs(l - r)
            return float(d / max(abs(l), abs(r), 1e-3)) if d else 0.0
        return 0.0 if neval([x], s, gpos or {})[0] else 1.0
    except (T.EvalError, NotImplementedError, KeyError, OverflowError, ZeroDivisionError, ValueError):
        return None


def search_near(h, run, goal, facts, cand, conc):
    """inputs of the open case near the ones already found at which the condition is numerically false: run the code there"""
    label, kind, x, info = goal
    if kind == "exc":
        return False
    hits = []
    t0 = time.time()
    for s in cand[:4]:
        for c in perturbations(s):
            if time.time() - t0 > 6:
                break
            d = far(kind, x, c, getattr(c, "wpos", {}))
            if d is not None and d > 1e-9 and holds_at(run, facts, c):
                hits.append((d, len(hits), c))
    hits.sort(key=lambda q: (-q[0], q[1]))
    for d, i, c in hits[:6]:
        r = conc(fixed_copy(c), "counterexample of the verifier")
        if r[0] != "skip" and any(l == label for l, m in r[1]):
            return True
    return False


def replay(h, run, facts, samples, good, conc, label):
    for s in samples:
        r = conc(s, "counterexample of the verifier")
        if r[0] != "skip" and any(l == label for l, m in r[1]):
            return "hit"
    return "miss"


def settle(h, run, goal, cases, good, conc, res, seed):
    """an obligation the provers did not discharge: look for a failing input in each open case"""
    label, kind, x, info = goal
    why = "; ".join(sorted(set(str(c[1]) for c in cases)))
    reached = agree = 0
    for k, (facts, reason) in enumerate(cases[:12]):
        check_deadline()
        cand = []
        for s, env in good:
            g = {}
            if holds_at(run, facts, s):
                cand.append(s)
        st, ms = ("skip", [])
        if len(cand) < 2:
            st, ms = model_samples(run, facts, (h.prop, h.name, seed, "goal", label, k, len(run.taken)))
            if st == "unsat":
                agree += 1
                reached += 1
                continue
        for s in ms:
            r = conc(s, "counterexample of the verifier")
            if r[0] == "skip":
                continue
            if any(l == label for l, m in r[1]):
                return "refuted", why
            if holds_at(run, facts, s):
                cand.append(s)
        if not cand:
            for s in search_between(h, run, facts, good):
                r = conc(fixed_copy(s), "counterexample of the verifier")
                if r[0] == "skip":
                    continue
                if any(l == label for l, m in r[1]):
                    return "refuted", why
                cand.append(s)
        if not cand:
            continue
        reached += 1
        if kind == "exc":
            agree += 1
            continue
        if search_near(h, run, goal, facts, cand, conc):
            return "refuted", why
        good_num = 0
        for s in cand[:6]:
            try:
                if kind == "eq":
                    l, r = neval([x[0], x[1]], s, {}, 40)
                    d = abs(l - r)
                    if d <= 1e-15 * max(abs(l), abs(r)) + 1e-28:
                        good_num += 1
                    else:
                        good_num = -100
                elif kind == "true":
                    good_num += 1 if neval([x], s, {})[0] else -100
            except (T.EvalError, NotImplementedError):
                pass
        if good_num > 0:
            agree += 1
        elif good_num < 0:
            res["notes"].append(f"{label}: the condition is numerically false but the code agrees on replay")
            agree += 1   # engine disagreement, never an alarm
            why += "; engine disagreement"
    if reached == len(cases) or agree == len(cases):
        return "undecided", why + f"; holds at {agree} directed inputs"
    return "open", why + "; no input reaching the open case was found"


def holds_at(run, facts, s):
    if not h_choices(run, s):
        return False
    return holds([f for f in facts if f.op != "ex" and not (f.op == "not" and f.args[0].op == "ex")], s,
                 getattr(s, "wpos", {})) is True


def crosscheck(h, run, good, res):
    """the symbolic values against those CPython computed for the samples that take this path: a disagreement counts when it is
    not confined to one sample (a value on a branch cut may fall on either side)"""
    n, bad = 0, {}
    for s, env in good:
        if n >= (1 if not bad else 4):
            break
        if not holds_at(run, run.facts(), s):
            continue
        groups = {}
        for label, kind, x, info in run.goals:
            if kind == "eq":
                groups.setdefault(label, []).append((x, info))
        done = False
        for label, lst in list(groups.items())[:8]:
            if bad and label not in bad:
                continue
            rec = env.record.get(label)
            if not rec or len(rec) != 1:
                continue
            a, b = rec[0]
            shape = np.broadcast_shapes(a.shape, b.shape)
            a, b = np.broadcast_to(a, shape), np.broadcast_to(b, shape)
            wrong = None
            for (x, info) in lst[:3]:
                idx, dims = info
                if len(dims) != a.ndim:
                    break
                pos = tuple(0 if d is not None else i for i, d in zip(idx, dims))
                try:
                    l, r = neval([x[0], x[1]], s, {}, 20)
                except (T.EvalError, NotImplementedError):
                    continue
                try:
                    cv = complex(a[pos])
                except (IndexError, TypeError):
                    continue
                done = True
                if not (abs(complex(l) - cv) <= 1e-5 * max(abs(cv), abs(complex(l))) + 1e-7 * (1 + np.max(np.abs(a)))):
                    if cv == cv:
                        wrong = f"{label}: CPython {cv}, symbolic {complex(l)}"
                        break
            if wrong:
                bad.setdefault(label, []).append(wrong)
            elif bad:
                bad[label].append(None)
        if done:
            n += 1
    for label, w in bad.items():
        if None not in w:
            res["mismatch"].append(w[0])
    return min(n, 1)


def h_choices(run, s):
    """do the enumerated choices of the sample lead to this path"""
    for name, i in run.choice_log.items():
        if s.choices.get(name) != i:
            return False
    for name, n in run.fixed_sizes.items():
        if s.sizes.get(name) != n:
            return False
    return True
