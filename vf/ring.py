"""Normal forms: terms -> quotients of polynomials with integer coefficients over atoms, modulo the
algebraic relations of the atoms (i^2=-1, radicals, exponentials with commensurable arguments, user rules).

Everything is exact.  Laurent exponents are allowed for ordinary atoms (all divisions assume a non-zero
divisor, which the report lists as an assumption)."""
from __future__ import annotations
from fractions import Fraction
from math import gcd

from . import terms as T

ALG_W = 5           # bits per algebraic atom (exponent >= 0)
ALG_N = 60          # number of algebraic slots (slot 0 is i)
ALG_BITS = ALG_W * ALG_N
LOW = (1 << ALG_BITS) - 1
W = 16              # bits per Laurent atom (signed)
HALF = 1 << (W - 1)
IBIT = 1


class Unsupported(Exception):
    """the verifier has no rule for this construct"""


class TooBig(Unsupported):
    pass


class Regran(Exception):
    def __init__(self, key, g):
        self.key, self.g = key, g


class Rat:
    """scale * num / prod(den)  with num: {monomial: int}, den: {factor key: (poly, exponent)}"""
    __slots__ = ("num", "den", "scale")

    def __init__(self, num, den=None, scale=Fraction(1)):
        self.num = num
        self.den = den or {}
        self.scale = scale


def pkey(p):
    return tuple(sorted(p.items()))


class Ring:
    MAXTERMS = 60000

    def __init__(self):
        self.alg = [("i", None)]          # slot -> (label, info)
        self.alg_rel = {0: (2, None)}     # slot -> (degree, Rat) ; slot 0 special
        self.lau = []                     # slot -> atom descriptor
        self.atom_index = {}              # descriptor key -> monomial
        self.memo = {}                    # node id -> Rat
        self.conjmap = {}                 # monomial of single atom -> Rat (conjugate)
        self.expgran = {}                 # base key -> Fraction
        self.fnatoms = {}                 # name -> list of (arg Rats, monomial/Rat, node)
        self.radicals = []                # (Rat radicand, slot, mono, info)
        self.rules = []                   # list of (lead monomial fields dict, poly) ; user rewriting rules
        self.trig_nodes = ()              # angles whose sine is an atom, the cosine its root sqrt(1 - s^2)
        self.trig_alg = {}
        self.square_hints = []            # (Rat r, Rat r^2): r is some root of r^2
        self.root_hints = []              # list of (Rat r, Rat r^2): r is the principal root of r^2
        self.facts_pos = {}
        self.alg_mask2 = 0
        self._mask_update()
        self.realmono = set()

    # ------------------------------------------------------------ atoms
    def _mask_update(self):
        m = 0
        for s in range(len(self.alg)):
            m |= (((1 << ALG_W) - 1) & ~1) << (ALG_W * s)
        self.alg_mask2 = m

    def new_laurent(self, desc):
        s = len(self.lau)
        self.lau.append(desc)
        return 1 << (ALG_BITS + W * s)

    def new_alg(self, label, degree, rel):
        s = len(self.alg)
        if s >= ALG_N:
            raise TooBig("too many radicals")
        self.alg.append((label, None))
        self.alg_rel[s] = (degree, rel)
        self._mask_update()
        return 1 << (ALG_W * s), s

    def fields(self, m):
        """decode a monomial -> ({alg slot: e}, {laurent slot: e})"""
        low = m & LOW
        a = {}
        s = 0
        while low:
            e = low & ((1 << ALG_W) - 1)
            if e:
                a[s] = e
            low >>= ALG_W
            s += 1
        hi = m >> ALG_BITS
        l = {}
        s = 0
        while hi:
            e = hi & ((1 << W) - 1)
            if e >= HALF:
                e -= 1 << W
            if e:
                l[s] = e
            hi = (hi - e) >> W
            s += 1
        return a, l

    # ------------------------------------------------------------ polynomial arithmetic
    def padd(self, p, q, cp=1, cq=1):
        r = {m: c * cp for m, c in p.items()} if cp != 1 else dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * cq
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if not p:
            return {}
        if len(p) * len(q) > 4_000_000:
            raise TooBig(f"product of {len(p)} x {len(q)} terms")
        r = {}
        get = r.get
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        if len(r) > self.MAXTERMS:
            raise TooBig(f"{len(r)} terms")
        return self.preduce(r)

    def preduce(self, r):
        """apply the algebraic relations; requires integral relations (radicand polynomial)"""
        mask = self.alg_mask2
        for _ in range(200):
            bad = [m for m in r if m & mask]
            if not bad:
                break
            changed = False
            for m in bad:
                c = r.get(m)
                if not c:
                    continue
                # find slot to reduce, highest first
                low = m & LOW
                for s in range(len(self.alg) - 1, -1, -1):
                    e = (low >> (ALG_W * s)) & ((1 << ALG_W) - 1)
                    deg, rel = self.alg_rel[s]
                    if e >= deg:
                        changed = True
                        del r[m]
                        if s == 0:
                            k = e // 2
                            m2 = m - 2 * k
                            v = r.get(m2, 0) + (c if k % 2 == 0 else -c)
                            if v:
                                r[m2] = v
                            else:
                                r.pop(m2, None)
                        else:
                            base = m - (deg << (ALG_W * s))
                            for mm, cc in rel.items():
                                t = base + mm
                                v = r.get(t, 0) + c * cc
                                if v:
                                    r[t] = v
                                else:
                                    r.pop(t, None)
                        break
            if not changed:
                break
        else:
            raise TooBig("reduction did not terminate")
        if 0 in r.values():
            r = {m: c for m, c in r.items() if c}
        if len(r) > self.MAXTERMS:
            raise TooBig(f"{len(r)} terms")
        return r

    # ------------------------------------------------------------ Rat arithmetic
    def rconst(self, re, im=Fraction(0)):
        re, im = Fraction(re), Fraction(im)
        if re == 0 and im == 0:
            return Rat({})
        d = re.denominator * im.denominator // gcd(re.denominator, im.denominator)
        a, b = int(re * d), int(im * d)
        p = {}
        if a:
            p[0] = a
        if b:
            p[IBIT] = b
        return self.norm(Rat(p, {}, Fraction(1, d)))

    def norm(self, r):
        """integer content into scale"""
        if not r.num:
            return Rat({}, {}, Fraction(1))
        g = 0
        for c in r.num.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            r = Rat({m: c // g for m, c in r.num.items()}, r.den, r.scale * g)
        return r

    def mono(self, m):
        return Rat({m: 1})

    def radd(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        # common denominator
        den = dict(a.den)
        mulb = {}
        for k, (p, e) in b.den.items():
            ea = den.get(k, (p, 0))[1]
            if e > ea:
                den[k] = (p, e)
        na, nb = a.num, b.num
        for k, (p, e) in den.items():
            da = e - a.den.get(k, (p, 0))[1]
            db = e - b.den.get(k, (p, 0))[1]
            for _ in range(da):
                na = self.pmul(na, p)
            for _ in range(db):
                nb = self.pmul(nb, p)
        s, t = a.scale, b.scale
        g = s.denominator * t.denominator // gcd(s.denominator, t.denominator)
        num = self.padd(na, nb, int(s * g), int(t * g))
        if not num:
            return Rat({})
        return self.norm(Rat(num, den, Fraction(1, g)))

    def rneg(self, a):
        return Rat(a.num, a.den, -a.scale)

    def rmul(self, a, b):
        if not a.num or not b.num:
            return Rat({})
        an, bn = a.num, b.num
        ad, bd = dict(a.den), dict(b.den)
        # cheap cancellation: numerator equal to a denominator factor of the other
        for (n, other) in ((0, bd), (1, ad)):
            src = an if n == 0 else bn
            if other and len(src) > 1:
                k, sg = self.factor_key(src)
                hit = other.get(k[0]) if k else None
                if hit is not None:
                    p, e = hit
                    if e == 1:
                        del other[k[0]]
                    else:
                        other[k[0]] = (p, e - 1)
                    rest = {k[1]: sg}
                    if n == 0:
                        an = rest
                    else:
                        bn = rest
        num = self.pmul(an, bn)
        den = ad
        for k, (p, e) in bd.items():
            if k in den:
                den[k] = (p, den[k][1] + e)
            else:
                den[k] = (p, e)
        return self.norm(Rat(num, den, a.scale * b.scale))

    def factor_key(self, p):
        """p = sign * content-free * monomial * canonical factor -> ((key, monomial), signed content)"""
        g = 0
        for c in p.values():
            g = gcd(g, c)
        mm = self.mono_content(p)
        q = {m - mm: c // g for m, c in p.items()}
        lead = max(q)
        sg = 1 if q[lead] > 0 else -1
        if sg < 0:
            q = {m: -c for m, c in q.items()}
        return (pkey(q), mm), sg * g

    def mono_content(self, p):
        """Laurent monomial common to all terms (algebraic fields excluded)"""
        lo = None
        for m in p:
            _, l = self.fields(m)
            if lo is None:
                lo = dict(l)
            else:
                for s in list(lo):
                    lo[s] = min(lo[s], l.get(s, 0))
                for s, e in l.items():
                    if s not in lo:
                        lo[s] = min(0, e)
        r = 0
        for s, e in (lo or {}).items():
            r += e << (ALG_BITS + W * s)
        return r

    def poly_inv(self, p):
        """1/p as Rat"""
        if not p:
            raise ZeroDivisionError("division by a term that is identically zero")
        if len(p) == 1:
            (m, c), = p.items()
            a, l = self.fields(m)
            out = Rat({}, {}, Fraction(1, c))
            mm = 0
            for s, e in l.items():
                mm -= e << (ALG_BITS + W * s)
            out.num = {mm: 1}
            for s, e in a.items():
                if s == 0:
                    if e % 2:
                        out = self.rmul(out, Rat({IBIT: -1}))
                else:
                    deg, rel = self.alg_rel[s]
                    for _ in range(e):
                        # R^-1 = R^(deg-1) / rel
                        out = self.rmul(out, Rat({(deg - 1) << (ALG_W * s): 1}))
                        out = self.rmul(out, self.poly_inv(rel))
            return self.norm(out)
        # rationalise numbers in Q(i)
        if all((m & ~IBIT) == 0 for m in p):
            a, b = p.get(0, 0), p.get(IBIT, 0)
            n = a * a + b * b
            return self.norm(Rat({k: v for k, v in {0: a, IBIT: -b}.items() if v}, {}, Fraction(1, n)))
        (k, mm), sg = self.factor_key(p)
        q = dict(k)
        num = {0: 1}
        inv = self.poly_inv({mm: 1})
        return Rat(inv.num, {k: (q, 1)}, inv.scale / sg)

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError("division by a term that is identically zero")
        r = self.poly_inv(a.num)
        num, scale = r.num, r.scale / a.scale
        out = Rat(num, r.den, scale)
        for k, (p, e) in a.den.items():
            for _ in range(e):
                out = self.rmul(out, Rat(p))
        return out

    def rpow(self, a, k):
        if k < 0:
            return self.rpow(self.rinv(a), -k)
        out = Rat({0: 1})
        b = a
        while k:
            if k & 1:
                out = self.rmul(out, b)
            k >>= 1
            if k:
                b = self.rmul(b, b)
        return out

    # ------------------------------------------------------------ zero test
    def is_zero(self, r):
        if not r.num:
            return True
        return not self.apply_rules(r.num)

    def add_rule(self, lead_nodes, rhs_node):
        """prod(lead_nodes) = rhs ; lead nodes must be atoms (not algebraic)"""
        m = 0
        for n in lead_nodes:
            r = self.norm_node(n)
            if len(r.num) != 1 or r.den or r.scale != 1:
                raise Unsupported("rule lead is not an atom")
            m += next(iter(r.num))
        rr = self.norm_node(rhs_node)
        a, l = self.fields(m)
        assert not a
        if rr.den:
            raise Unsupported("rule with denominator")
        self.rules.append((m, l, rr))

    def apply_rules(self, p):
        if not self.rules:
            return p
        scale_rules = []
        for m, l, rr in self.rules:
            scale_rules.append((m, l, rr.num, rr.scale))
        for it in range(400):
            changed = False
            for m, l, num, sc in scale_rules:
                hits = []
                for t in p:
                    _, tl = self.fields(t)
                    if all(tl.get(s, 0) >= e for s, e in l.items()):
                        hits.append(t)
                if not hits:
                    continue
                changed = True
                quo = {}
                for t in hits:
                    quo[t - m] = p.pop(t) if False else p[t]
                rest = {t: c for t, c in p.items() if t not in set(hits)}
                new = self.pmul(quo, num) if num else {}
                # p = rest + sc*new
                p = self.padd(rest, new, sc.denominator, sc.numerator)
                if not p:
                    return p
            if not changed:
                return p
        raise TooBig("rules did not terminate")

    # ------------------------------------------------------------ conjugation
    def rconj(self, r):
        out = Rat({})
        num = self.pconj(r.num)
        out = Rat(num.num, dict(num.den), num.scale * r.scale)
        for k, (p, e) in r.den.items():
            c = self.rinv(self.pconj(p))
            for _ in range(e):
                out = self.rmul(out, c)
        return out

    def pconj(self, p):
        out = Rat({})
        plain = {}
        for m, c in p.items():
            a, l = self.fields(m)
            special = any(s != 0 and self.conjmap.get(1 << (ALG_W * s), "self") != "self" for s in a) or \
                any(self.conjmap.get(1 << (ALG_BITS + W * s), "self") != "self" for s in l)
            if not special:
                plain[m] = -c if a.get(0, 0) % 2 else c
                continue
            t = Rat({IBIT: -c} if a.get(0, 0) % 2 else {0: c})
            for s, e in a.items():
                if s == 0:
                    continue
                mm = 1 << (ALG_W * s)
                cj = self.conjmap.get(mm, "self")
                b = Rat({mm: 1}) if cj == "self" else cj
                t = self.rmul(t, self.rpow(b, e))
            for s, e in l.items():
                mm = 1 << (ALG_BITS + W * s)
                cj = self.conjmap.get(mm, "self")
                b = Rat({mm: 1}) if cj == "self" else cj
                t = self.rmul(t, self.rpow(b, e))
            out = self.radd(out, t)
        if plain:
            out = self.radd(out, Rat(plain))
        return out

    # ------------------------------------------------------------ nodes -> Rat
    def norm_node(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        for m in T.walk([n]):
            if m.id in self.memo or m.op in ("cmp", "not", "and", "true", "false", "ex"):
                continue
            self.memo[m.id] = self._norm(m)
        return self.memo[n.id]

    def _norm(self, n):
        op = n.op
        if op == "c":
            return self.rconst(*n.pl)
        if op == "pi":
            return self.mono(self._atom(("pi",), "self"))
        if op == "v":
            if n.real:
                return self.mono(self._atom(("v", n.id), "self"))
            return self.mono(self._complex_atom(n))
        if op == "add":
            return self.radd(self.memo[n.args[0].id], self.memo[n.args[1].id])
        if op == "mul":
            return self.rmul(self.memo[n.args[0].id], self.memo[n.args[1].id])
        if op == "div":
            a, b = self.memo[n.args[0].id], self.memo[n.args[1].id]
            return self.rmul(a, self.rinv(b))
        if op == "pow":
            return self.rpow(self.memo[n.args[0].id], n.pl)
        if op == "conj":
            return self.rconj(self.memo[n.args[0].id])
        if op == "re":
            a = self.memo[n.args[0].id]
            r = self.radd(a, self.rconj(a))
            return Rat(r.num, r.den, r.scale / 2)
        if op == "im":
            a = self.memo[n.args[0].id]
            r = self.radd(a, self.rneg(self.rconj(a)))
            r = self.rmul(r, Rat({IBIT: -1}))
            return Rat(r.num, r.den, r.scale / 2)
        if op == "ite":
            return self._opaque(("ite", n.id), n)
        if op == "sum":
            return self._sum(n)
        if op == "fn":
            return self._fn(n)
        raise Unsupported(f"normal form of {op}")

    def _atom(self, key, conj="self"):
        m = self.atom_index.get(key)
        if m is None:
            m = self.new_laurent(key)
            self.atom_index[key] = m
            if conj != "self":
                self.conjmap[m] = conj
        return m

    def _complex_atom(self, n):
        key = ("z", n.id)
        m = self.atom_index.get(key)
        if m is None:
            m = self._atom(key)
            mc = self._atom(("zc", n.id))
            self.conjmap[m] = Rat({mc: 1})
            self.conjmap[mc] = Rat({m: 1})
        return m

    def _opaque(self, key, n):
        if n.real:
            return self.mono(self._atom(key))
        return self.mono(self._complex_atom(n))

    # ---- functions
    def equal(self, a, b):
        return self.is_zero(self.radd(a, self.rneg(b)))

    def const_of(self, r):
        """Fraction value of a constant real Rat or None"""
        if not r.num:
            return Fraction(0)
        if not r.den and list(r.num) == [0]:
            return r.scale * r.num[0]
        return None

    def _fn(self, n):
        name, pl = n.pl
        args = [self.memo[a.id] for a in n.args]
        if name == "exp":
            return self._exp(args[0])
        if name in ("sin", "cos") and n.args[0].id in self.trig_nodes:
            k = ("trig", n.args[0].id)
            sm = self._atom(k)
            if name == "sin":
                return Rat({sm: 1})
            cm = self.trig_alg.get(k)
            if cm is None:
                cm, _ = self.new_alg(k, 2, {0: 1, 2 * sm: -1})
                self.trig_alg[k] = cm
            return Rat({cm: 1})
        if name == "sin":
            x = self.rmul(args[0], Rat({IBIT: 1}))
            e1, e2 = self._exp(x), self._exp(self.rneg(x))
            r = self.rmul(self.radd(e1, self.rneg(e2)), Rat({IBIT: -1}))
            return Rat(r.num, r.den, r.scale / 2)
        if name == "cos":
            x = self.rmul(args[0], Rat({IBIT: 1}))
            r = self.radd(self._exp(x), self._exp(self.rneg(x)))
            return Rat(r.num, r.den, r.scale / 2)
        if name == "tan":
            x = self.rmul(args[0], Rat({IBIT: 2}))
            e = self._exp(x)
            one = Rat({0: 1})
            r = self.rmul(self.radd(e, self.rneg(one)), self.rinv(self.radd(e, one)))
            return self.rmul(r, Rat({IBIT: -1}))
        if name == "sqrt":
            return self._sqrt(args[0], n)
        if name == "abs":
            a = n.args[0]
            u = self.rmul(args[0], self.rconj(args[0]))
            return self._radical(u, n, nonneg=True)
        if name == "cbrt":
            return self._cbrt(args[0], n)
        if name == "powr":
            c = self.const_of(args[1])
            if c is not None and c.denominator == 1:
                return self.rpow(args[0], int(c))
            if c is not None and c.denominator == 2:
                return self.rpow(self._sqrt(args[0], n), int(2 * c))
            if c is not None and c.denominator == 3:
                return self.rpow(self._cbrt(args[0], n), int(3 * c))
        if name == "cosasin":
            x = args[0]
            return self._radical(self.radd(Rat({0: 1}), self.rneg(self.rmul(x, x))), n)
        if name in ("coshr", "sinhcr", "coshcr"):
            return self._hyper(name, args[0], n)
        if name == "log" :
            c = self.const_of(args[0])
            if c == 1:
                return Rat({})
        if name == "floor":
            c = self.const_of(args[0])
            if c is not None:
                return self.rconst(Fraction(c.numerator // c.denominator))
        return self._uninterpreted(n, args)

    def _hyper(self, name, s, n):
        """even functions of sqrt(s): cosh r, sinh(r)/r, (cosh r - 1)/r^2"""
        if not s.num:
            one = Rat({0: 1})
            return Rat(one.num, one.den, Fraction(1, 2)) if name == "coshcr" else one
        r = self.any_root(s)
        if r is None:
            r = self._radical(s, T.fn("sqrt", n.args[0]))
        e1, e2 = self._exp(r), self._exp(self.rneg(r))
        if name == "sinhcr":
            o = self.rmul(self.radd(e1, self.rneg(e2)), self.rinv(r))
            return Rat(o.num, o.den, o.scale / 2)
        o = self.radd(e1, e2)
        o = Rat(o.num, o.den, o.scale / 2)
        if name == "coshcr":
            o = self.rmul(self.radd(o, Rat({0: -1})), self.rinv(s))
        return o

    def _uninterpreted(self, n, args):
        name = n.pl
        lst = self.fnatoms.setdefault((name, len(args), n.real), [])
        for (a2, r) in lst:
            if all(self.equal(x, y) for x, y in zip(args, a2)):
                return r
        # conjugate of a known one?
        if n.real:
            m = self._atom(("fn", n.id))
            r = Rat({m: 1})
        else:
            m = self._atom(("fn", n.id))
            mc = self._atom(("fnc", n.id))
            self.conjmap[m] = Rat({mc: 1})
            self.conjmap[mc] = Rat({m: 1})
            r = Rat({m: 1})
        lst.append((args, r))
        return r

    # ---- exponentials
    def _exp(self, x):
        if not x.num:
            return Rat({0: 1})
        out = Rat({0: 1})
        dk = tuple(sorted((k, e) for k, (p, e) in x.den.items()))
        pim = self.atom_index.get(("pi",))
        for m, c in x.num.items():
            coef = x.scale * c
            out = self.rmul(out, self._exp_term(m, dk, coef, x.den))
        return out

    def _exp_term(self, m, dk, coef, den):
        a, l = self.fields(m)
        imag = bool(a.get(0, 0) % 2)
        m0 = m - (IBIT if imag else 0)
        pim = self.atom_index.get(("pi",))
        if not dk:
            if imag and pim is not None and m0 == pim:
                return self._cis(coef)
            # single fn atom?
            desc = self._single_atom(m0)
            if desc is not None and desc[0] == "fn" and coef.denominator == 1:
                nd = self.node_of(desc[1])
                r = self._exp_of_inverse(nd, imag, int(coef))
                if r is not None:
                    return r
            # i*pi*(even)*floor(...)
            if imag and pim is not None and coef.denominator == 1 and coef % 2 == 0:
                d2 = self._single_atom(m0 - pim)
                if d2 is not None and d2[0] == "fn" and self.node_of(d2[1]).pl[0] in ("floor", "int"):
                    return Rat({0: 1})
        key = (m, dk)
        g = self.expgran.get(key)
        if g is None:
            g = Fraction(1, coef.denominator) if abs(coef.numerator) < 100 else abs(coef)
            self.expgran[key] = g
        q = coef / g
        if q.denominator != 1:
            ng = Fraction(gcd(g.numerator * coef.denominator, coef.numerator * g.denominator),
                          g.denominator * coef.denominator)
            raise Regran(key, ng)
        mm = self.atom_index.get(("exp", key))
        if mm is None:
            mm = self._atom(("exp", key))
            # conjugate: exp(conj(g*base))
            base = Rat({m: 1}, {k: (dict(k), e) for k, e in dk}, g)
            cb = self.rconj(base)
            neg = self.radd(cb, base)
            if not neg.num:
                self.conjmap[mm] = Rat({-mm: 1})
            elif not self.radd(cb, self.rneg(base)).num:
                pass
            else:
                self.conjmap[mm] = Rat({mm: 1})   # provisional, to stop recursion
                cj = self._exp(cb)
                self.conjmap[mm] = cj
                if len(cj.num) == 1 and not cj.den:
                    (k1, c1), = cj.num.items()
                    aa, ll = self.fields(k1)
                    if not aa and len(ll) == 1:
                        (s1, e1), = ll.items()
                        if e1 in (1, -1):
                            self.conjmap[1 << (ALG_BITS + W * s1)] = Rat({e1 * mm: 1})
        e = int(q)
        if abs(e) > 2000:
            raise TooBig("exponent")
        return Rat({mm * e: 1})

    def _single_atom(self, m):
        a, l = self.fields(m)
        if a or len(l) != 1:
            return None
        (s, e), = l.items()
        return self.lau[s] if e == 1 else None

    def node_of(self, nid):
        if not hasattr(self, "_nodes"):
            self._nodes = {}
        n = self._nodes.get(nid)
        if n is None:
            for nd in T._table.values():
                if nd.id == nid:
                    n = self._nodes[nid] = nd
                    break
        return n

    def _exp_of_inverse(self, nd, imag, k):
        """exp(i k f(x)) for f an inverse function"""
        name = nd.pl[0]
        one = Rat({0: 1})
        i_ = Rat({IBIT: 1})
        if name == "log" and not imag:
            return self.rpow(self.memo[nd.args[0].id], k)
        if not imag:
            return None
        if name == "arcsin":
            c = self.norm_node(T.fn("cosasin", nd.args[0]))
            x = self.memo[nd.args[0].id]
            b = self.radd(c, self.rmul(i_, x)) if k > 0 else self.radd(c, self.rneg(self.rmul(i_, x)))
            return self.rpow(b, abs(k))
        if name == "arctan":
            x = self.memo[nd.args[0].id]
            s = self.norm_node(T.fn("sqrt", T.add(T.ONE, T.powi(nd.args[0], 2)), real=nd.real))
            b = self.rmul(self.radd(one, self.rmul(i_, x) if k > 0 else self.rneg(self.rmul(i_, x))), self.rinv(s))
            return self.rpow(b, abs(k))
        if name == "angle":
            z = nd.args[0]
            zz = self.memo[z.id]
            if k < 0:
                zz = self.rconj(zz)
            a = self.norm_node(T.fn("abs", z))
            return self.rpow(self.rmul(zz, self.rinv(a)), abs(k))
        return None

    def _cis(self, c):
        """exp(i*pi*c)"""
        c = c - 2 * (c.numerator // (2 * c.denominator))
        k = c * 2
        if k.denominator == 1:
            k = int(k)
            return [Rat({0: 1}), Rat({IBIT: 1}), Rat({0: -1}), Rat({IBIT: -1})][k]
        if c.denominator == 4:
            s2 = self.norm_node(T.fn("sqrt", T.const(2), real=True))
            base = self.rmul(self.radd(Rat({0: 1}), Rat({IBIT: 1})), s2)
            base = Rat(base.num, base.den, base.scale / 2)
            return self.rpow(base, int(c * 4))
        if c.denominator in (3, 6):
            s3 = self.norm_node(T.fn("sqrt", T.const(3), real=True))
            base = self.radd(s3, Rat({IBIT: 1}))
            base = Rat(base.num, base.den, base.scale / 2)
            return self.rpow(base, int(c * 6))
        g = self.expgran.get("cis")
        if g is None:
            g = self.expgran["cis"] = Fraction(1, c.denominator)
        q = c / g
        if q.denominator != 1:
            raise Regran("cis", Fraction(gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                         g.denominator * c.denominator))
        mm = self._atom(("cis",))
        self.conjmap[mm] = Rat({-mm: 1})
        return Rat({mm * int(q): 1})

    # ---- radicals
    def add_root_hint(self, node):
        """declares: node is the principal square root of node^2"""
        r = self.norm_node(node)
        self.root_hints.append((r, self.rmul(r, r)))

    def _sqrt(self, u, n):
        if not u.num:
            return Rat({})
        c = self.const_of(u)
        if c is not None:
            if c < 0:
                return self.rmul(Rat({IBIT: 1}), self._sqrt(self.rconst(-c), n))
            k = self._int_sqrt(c.numerator * c.denominator)
            # sqrt(p/q) = sqrt(p*q)/q = a*sqrt(b)/q
            a, b = k
            r = self.rconst(Fraction(a, c.denominator))
            if b == 1:
                return r
            return self.rmul(r, self._radical(self.rconst(b), n, nonneg=True, realroot=True))
        for h, h2 in self.root_hints:
            if self.equal(u, h2):
                return h
        return self._radical(u, n)

    @staticmethod
    def _int_sqrt(v):
        a, b, p = 1, v, 2
        while p * p <= b and p < 2000:
            while b % (p * p) == 0:
                b //= p * p
                a *= p
            p += 1
        import math
        s = math.isqrt(b)
        if s * s == b:
            return a * s, 1
        return a, b

    def square_part(self, u):
        """u = t^2 * w, with t a Rat (monomial, constants and denominator factors) and w = w.num polynomial
        (integral); returns (t, w poly)"""
        num = u.num
        scale = u.scale
        t = Rat({0: 1})
        # denominators
        for k, (p, e) in u.den.items():
            h = (e + 1) // 2
            if e % 2:
                num = self.pmul(num, p)
            inv = self.poly_inv(p)
            for _ in range(h):
                t = self.rmul(t, inv)
        mm = self.mono_content(num)
        _, l = self.fields(mm)
        sq = 0
        for s, e in l.items():
            h = e // 2
            sq += h << (ALG_BITS + W * s)
        if sq:
            num = {m - 2 * sq: c for m, c in num.items()}
            t = self.rmul(t, Rat({sq: 1}))
        g = 0
        for c in num.values():
            g = gcd(g, c)
        num = {m: c // g for m, c in num.items()}
        scale = scale * g
        sgn = 1 if scale > 0 else -1
        v = abs(scale.numerator) * scale.denominator
        a, b = self._int_sqrt(v)
        t = Rat(t.num, t.den, t.scale * Fraction(a, scale.denominator))
        b *= sgn
        if b != 1:
            num = {m: c * b for m, c in num.items()}
        return t, num

    def _radical(self, u, n, nonneg=False, realroot=False):
        """the root selected by node n (principal / non-negative) of u"""
        kind = "abs" if nonneg else ("sqrtr" if n.real else "cas" if n.op == "fn" and n.pl[0] == "cosasin" else "sqrt")
        key = None
        for (k2, u2, r2) in self.radicals:
            if k2 == kind and self.equal(u, u2):
                return r2
        t, w = self.square_part(u)
        if nonneg and len(w) == 1 and w.get(0) == 1:
            # |t|: t real monomial; only safe when t's sign is known
            pass
        self._radc = getattr(self, "_radc", 0) + 1
        m, s = self.new_alg(("rad", n.id, self._radc), 2, w)
        r = self.rmul(t, Rat({m: 1}))
        self.radicals.append((kind, u, r))
        # conjugate of r: real if the root is real; otherwise a separate radical of conj(u)
        if nonneg or n.real or realroot:
            # r real: conj(R) = r / conj(t)
            ct = self.rconj(t)
            cj = self.rmul(r, self.rinv(ct))
            if not self.equal(cj, Rat({m: 1})):
                self.conjmap[m] = cj
        else:
            cu = self.rconj(u)
            ct, cw = self.square_part(cu)
            m2, s2 = self.new_alg(("radc", n.id, self._radc), 2, cw)
            rc = self.rmul(ct, Rat({m2: 1}))
            # conj(R) = conj(r)/conj(t)
            self.conjmap[m] = self.rmul(rc, self.rinv(self.rconj(t)))
            self.conjmap[m2] = self.rmul(r, self.rinv(self.rconj(ct)))
            self.radicals.append(("conj-" + kind, cu, rc))
        return r

    def any_root(self, u):
        """some square root of u, expressed with existing radicals if possible (sign arbitrary)"""
        if not u.num:
            return Rat({})
        t, w = self.square_part(u)
        if len(w) == 1 and list(w) == [0]:
            v = w[0]
            if v == 1:
                return t
            if v == -1:
                return self.rmul(t, Rat({IBIT: 1}))
        mu = self.rneg(u)
        for h, h2 in self.root_hints + self.square_hints:
            if self.equal(u, h2):
                return h
            if self.equal(mu, h2):
                return self.rmul(h, Rat({IBIT: 1}))
        for h, h2 in self.root_hints + self.square_hints:
            r = self._ratio_square(u, h2)
            if r is not None:
                return self.rmul(r, h)
        for (k, u2, r2) in self.radicals:
            r = self._ratio_square(u, u2)
            if r is not None:
                return self.rmul(r, r2)
        return None

    def _ratio_square(self, u, v):
        """t (monomial, up to a constant root) with u = t^2 v, or None"""
        t1, w1 = self.square_part(u)
        t2, w2 = self.square_part(v)
        if len(w1) != len(w2):
            return None
        k1, k2 = max(w1), max(w2)
        d = k1 - k2
        num, den = w1[k1], w2[k2]
        r = Fraction(num, den)
        sgn = 1 if r > 0 else -1
        a, b = self._int_sqrt(abs(r.numerator) * r.denominator)
        if b != 1:
            return None
        al, ll = self.fields(d) if d >= 0 else ({}, None)
        if d != 0:
            try:
                aa, l = self.fields(d)
            except Exception:
                return None
            if aa or any(e % 2 for e in l.values()):
                return None
            h = sum((e // 2) << (ALG_BITS + W * s) for s, e in l.items())
        else:
            h = 0
        for m, c in w2.items():
            if Fraction(w1.get(m + d, 0)) != r * c:
                return None
        q = Rat({h: 1}, {}, Fraction(a, abs(r.denominator)))
        if sgn < 0:
            q = self.rmul(q, Rat({IBIT: 1}))
        return self.rmul(self.rmul(t1, self.rinv(t2)), q)

    def _cbrt(self, u, n):
        if not u.num:
            return Rat({})
        c = self.const_of(u)
        for (k2, u2, r2) in self.radicals:
            if k2 == "cbrt" and self.equal(u, u2):
                return r2
        if c is not None:
            num = round(abs(c.numerator) ** (1 / 3)) if c > 0 else -1
            den = round(c.denominator ** (1 / 3))
            if c > 0 and num**3 == c.numerator and den**3 == c.denominator:
                return self.rconst(Fraction(num, den))
        # u = num/den ; R = r * den  => R^3 = num*den^2
        num = u.num
        t = Rat({0: 1})
        for k, (p, e) in u.den.items():
            for _ in range(e):
                num = self.pmul(self.pmul(num, p), p)
                t = self.rmul(t, self.poly_inv(p))
        s = u.scale
        num = {m: c * s.numerator * s.denominator**2 for m, c in num.items()}
        t = Rat(t.num, t.den, t.scale / s.denominator)
        self._radc = getattr(self, "_radc", 0) + 1
        m, sl = self.new_alg(("cbrt", n.id, self._radc), 3, num)
        r = self.rmul(t, Rat({m: 1}))
        self.radicals.append(("cbrt", u, r))
        if not n.real:
            m2, s2 = self.new_alg(("cbrtc", n.id, self._radc), 3, self.pconj(num).num)
            self.conjmap[m] = Rat({m2: 1})
            self.conjmap[m2] = Rat({m: 1})
        return r

    # ---- sums over a symbolic dimension: linear in index-free factors
    def _sum(self, n):
        dim, body = n.pl, n.args[0]
        x = self.memo[body.id]
        dependent = {}
        for s, d in enumerate(self.lau):
            dependent[s] = self._dep(d, dim)
        if any(self._algdep(s, dim) for s in range(1, len(self.alg))):
            return self._opaque(("sum", n.id), n)
        dk = []
        for k, (p, e) in x.den.items():
            dep = any(any(dependent.get(s, False) for s in self.fields(m)[1]) for m in p)
            dk.append((k, e, dep))
        if sum(e for k, e, dep in dk if dep) > 1:
            # one expanded denominator, whatever way it was factored
            prod = {0: 1}
            for k, e, dep in dk:
                for _ in range(e if dep else 0):
                    prod = self.pmul(prod, dict(k))
                    if len(prod) > 60:
                        break
            if len(prod) <= 60:
                (k, mm), sg = self.factor_key(prod)
                x = self.rmul(Rat(x.num, {}, x.scale / sg), self.poly_inv({mm: 1}))
                dk = [(q, e, dep) for q, e, dep in dk if not dep] + [(k, 1, True)]
        inner_den = tuple(sorted((k, e) for k, e, dep in dk if dep))
        outer = {k: (dict(k), e) for k, e, dep in dk if not dep}
        groups = {}
        for m, c in x.num.items():
            a, l = self.fields(m)
            mi = sum(e << (ALG_BITS + W * s) for s, e in l.items() if dependent.get(s))
            groups.setdefault(mi, {})[m - mi] = c
        out = Rat({})
        for mi, coef in groups.items():
            key = ("sumatom", dim.uid, mi, inner_den)
            atom = self.atom_index.get(key)
            if atom is None:
                body_rat = Rat({mi: 1}, {k: (dict(k), e) for k, e in inner_den})
                cj = self.rconj(body_rat)
                atom = self._atom(key)
                if not self.equal(cj, body_rat):
                    if len(cj.num) == 1 and list(cj.num.values()) == [1]:
                        k2 = ("sumatom", dim.uid, next(iter(cj.num)), tuple(sorted((k, e) for k, (p, e) in cj.den.items())))
                        at2 = self._atom(k2)
                        self.conjmap[atom] = Rat({at2: 1})
                        self.conjmap[at2] = Rat({atom: 1})
                    else:
                        raise Unsupported("conjugate of a sum")
            if mi == 0 and not inner_den:
                pass
            out = self.radd(out, self.norm(Rat(self.pmul(coef, {atom: 1}), dict(outer), x.scale)))
        return out

    def _dep(self, desc, dim):
        k = desc[0]
        if k in ("v", "z", "zc", "fn", "fnc", "ite", "sum"):
            return dim in self.node_of(desc[1]).dims
        if k == "exp":
            m, dk = desc[1]
            a, l = self.fields(m)
            if any(self._dep(self.lau[s], dim) for s in l):
                return True
            for kk, e in dk:
                for mm, c in kk:
                    if any(self._dep(self.lau[s], dim) for s in self.fields(mm)[1]):
                        return True
            return False
        if k == "sumatom":
            if desc[1] == dim.uid:
                return False
            return any(self._dep(self.lau[s], dim) for s in self.fields(desc[2])[1])
        return False

    def _algdep(self, s, dim):
        _, rel = self.alg_rel[s]
        for m in rel:
            a, l = self.fields(m)
            if any(self._dep(self.lau[x], dim) for x in l):
                return True
            if any(self._algdep(x, dim) for x in a if x not in (0, s)):
                return True
        return False


class Session:
    """a ring with restart on a finer exponential granularity; keeps hints and rules"""

    def __init__(self, hints=(), rules=(), squares=(), trig=()):
        self.trig = frozenset(t.id for t in trig)
        self.hints = list(hints)
        self.squares = list(squares)
        self.rules = list(rules)
        self.gran = {}
        self._new()

    def _new(self):
        self.ring = Ring()

    def _setup(self):
        r = self.ring
        if getattr(r, "_ready", False):
            return
        r._ready = True
        r.trig_nodes = self.trig
        for h in self.hints:
            r.add_root_hint(h)
        for h in self.squares:
            x = r.norm_node(h)
            r.square_hints.append((x, r.rmul(x, x)))
        for lead, rhs in self.rules:
            r.add_rule(lead, rhs)

    def run(self, f):
        for _ in range(30):
            try:
                self._setup()
                return f(self.ring)
            except Regran as e:
                self.ring.expgran[e.key] = e.g
                g = dict(self.ring.expgran)
                # keys refer to monomials of the old ring: rebuild deterministically by keeping atom order
                self._restart(e)
        raise TooBig("exponential granularity")

    def _restart(self, e):
        old = self.ring
        # finest granularity by description of the base key
        self.gran_desc = getattr(self, "gran_desc", {})
        self.gran_desc[old_desc(old, e.key)] = e.g
        r = GRing(self.gran_desc)
        self.ring = r

    def is_zero(self, node):
        return self.run(lambda r: r.is_zero(r.norm_node(node)))

    def normal(self, node):
        return self.run(lambda r: r.norm_node(node))


def old_desc(ring, key):
    """a ring-independent description of an exponential base"""
    if key == "cis":
        return "cis"
    m, dk = key

    def dm(m):
        a, l = ring.fields(m)
        return (tuple(sorted((str(ring.alg[s][0]), e) for s, e in a.items())),
                tuple(sorted((ddesc(ring.lau[s]), e) for s, e in l.items())))

    def ddesc(d):
        if d[0] == "exp":
            return str(("exp", old_desc(ring, d[1])))
        return str(d)

    return str((dm(m), tuple(sorted((tuple(sorted((str(dm(mm)), c) for mm, c in k)), e) for k, e in dk))))


class GRing(Ring):
    def __init__(self, desc):
        super().__init__()
        self._desc = desc

    def _exp_term(self, m, dk, coef, den):
        key = (m, dk)
        if key not in self.expgran and self._desc:
            d = self._desc.get(old_desc(self, key))
            if d is not None:
                self.expgran[key] = d
        return super()._exp_term(m, dk, coef, den)

    def _cis(self, c):
        if "cis" not in self.expgran and "cis" in self._desc:
            self.expgran["cis"] = self._desc["cis"]
        return super()._cis(c)
