"""C24 Kramers-Kronig transforms (Maclaurin's formula, Ohta and Ishida 1988)

The functions are contracted for axes of every length n >= 2: an array is seen through its generic even and its generic odd element
(vf/seq.py), both axes of arbitrary length."""
import numpy as np

from elli import kkr as K
from elli.kkr import kkr as MOD
from ..engine import harness
from ..seq import Axis

# integrand of the principal-value integral over the spectrum, at frequency w with frequency wi singled out, per d(axis)
# (for a reciprocal axis x = 1/w the measure is dw = dx/x^2)


def im2re(v, w, wi):
    return w * v / (w * w - wi * wi)


def re2im(v, w, wi):
    return wi * v / (w * w - wi * wi)


def reciprocal(f):
    return lambda v, x, xi: f(v, 1 / x, 1 / xi) / (x * x)


FUNCS = {"im2re": (MOD.im2re, im2re), "re2im": (MOD.re2im, re2im),
         "im2re_reciprocal": (MOD.im2re_reciprocal, reciprocal(im2re)),
         "re2im_reciprocal": (MOD.re2im_reciprocal, reciprocal(re2im))}


class Data:
    """an equidistant axis and arbitrary values over it"""

    def __init__(self, E, names=("t",)):
        self.E = E
        up = E.choose("direction", ["ascending", "descending"])
        self.x0 = E.real("x0", 1, 10)
        self.h = E.real("step", 0, 100, special=(0.1, 1, 100), lo_open=True) if up == "ascending" else E.real("fall", -1 / 80, 0, hi_open=True)
        if E.sym:
            self.ax = Axis(E, "n")
            # the terms are proved for arbitrary points; that they are equidistant matters for the step only
            self.x = self.ax.array(E.rarray("x even", (self.ax.de,), 0, None, lo_open=True),
                                   E.rarray("x odd", (self.ax.do,), 0, None, lo_open=True), at=lambda k: self.x0 + self.h * k)
            self.v = [self.ax.array(E.rarray(nm + " even", (self.ax.de,)), E.rarray(nm + " odd", (self.ax.do,))) for nm in names]
            return
        de, do = E.dim("n[0::2]"), E.dim("n[1::2]")
        ev = [E.rarray(nm + " even", (de,), -50, 50) for nm in names]
        od = [E.rarray(nm + " odd", (do,), -50, 50) for nm in names]
        n = 2 * min(len(ev[0]), len(od[0]))
        if len(ev[0]) > len(od[0]):
            n += 1
        self.x = self.x0 + self.h * np.arange(n)
        self.v = []
        for e, o in zip(ev, od):
            a = np.empty(n)
            a[0::2] = e[: (n + 1) // 2]
            a[1::2] = o[: n // 2]
            self.v.append(a)

    def halves(self, a):
        return (a.even, a.odd) if self.E.sym else (a[0::2], a[1::2])

    def maclaurin(self, f, v):
        m = self.E.m
        (xe, xo), (ve, vo) = self.halves(self.x), self.halves(v)
        c = 4 * self.h / np.pi
        even = c * m.sum(f(vo[None, :], xo[None, :], xe[:, None]), axis=1)
        odd = c * m.sum(f(ve[None, :], xe[None, :], xo[:, None]), axis=1)
        return even, odd


def one(name):
    @harness("C24", name=name, n=60)
    def h(E):
        D = Data(E)
        fn, f = FUNCS[name]
        v = D.v[0]
        keep = v.copy()
        got = D.halves(fn(v, D.x))
        want = D.maclaurin(f, v)
        E.eq("even points", got[0], want[0])
        E.eq("odd points", got[1], want[1])
        for a, b in zip(D.halves(v), D.halves(keep)):
            E.eq("values unchanged", a, b)
    return h


for _n in FUNCS:
    one(_n)


@harness("C24", n=60)
def linear(E):
    D = Data(E, ("t", "u"))
    fn, _ = FUNCS[E.choose("function", list(FUNCS))]
    a, b = E.real("a", -3, 3), E.real("b", -3, 3)
    t, u = D.v
    got = D.halves(fn(a * t + b * u, D.x))
    p, q = D.halves(fn(t, D.x)), D.halves(fn(u, D.x))
    E.eq("even points", got[0], a * p[0] + b * q[0])
    E.eq("odd points", got[1], a * p[1] + b * q[1])


SIZE = "lengths 2 to 7"


@harness("C24", n=120, bounded=SIZE)
def short(E):
    """the same with every element written out"""
    n = E.choose("n", [2, 3, 4, 5, 6, 7])
    name = E.choose("function", list(FUNCS))
    fn, f = FUNCS[name]
    x0, h = E.real("x0", 1, 10), E.real("step", 0, 100, special=(0.1, 1, 100), lo_open=True)
    x = E.m.array([x0 + k * h for k in range(n)])
    t = E.rarray("t", (n,), -50, 50)
    got = fn(t, x)
    c = 4 * h / np.pi
    for i in range(n):
        want = 0
        for j in range(n):
            if (i - j) % 2:
                want = want + f(t[j], x[j], x[i])
        E.eq(f"point {i}", got[i], c * want)


@harness("C24", n=40)
def lengths(E):
    name = E.choose("function", list(FUNCS))
    n = E.choose("n", [2, 3, 4, 7])
    k = E.choose("other", [-1, 1, 2, 5])
    x = E.m.array([E.real("x0", 1, 10) + i * E.real("step", 0, 1, lo_open=True) for i in range(n + k)])
    t = E.rarray("t", (n,), -50, 50)
    E.raises("different lengths", (ValueError,), lambda: FUNCS[name][0](t, x))
