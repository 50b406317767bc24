"""C20 index and dielectric views of a dispersion; tables

BaseDispersion's views use nothing of a dispersion but dielectric_function / refractive_index, so they are proved for an
arbitrary function (AnyDispersion, AnyIndex), any number of wavelengths; every model of the library is checked as well.
Tables: the contract of scipy.interpolate.interp1d (piecewise linear through the points sorted by abscissa, ValueError
outside) is assumed; tables of up to four points in every order, wavelengths anywhere.
"""
import numpy as np
import pandas as pd

import elli
from elli.dispersions.base_dispersion import BaseDispersion, Dispersion, IndexDispersion, InvalidParameters
from ..engine import harness
from .c05 import AnyDispersion, AnyIndex
from .c06 import REAL
from .c18 import own
from .common import Given, GivenIndex

BOUND = "tables of at most four points, in any order"


def axis(E, tag=""):
    d = E.dim("N" + tag)
    return E.rarray("lbda" + tag, (d,), 250.0, 2000.0, axis=True)


def frame(E, label, df, names, a, b, lb, whole=True):
    """a DataFrame has exactly these columns against these wavelengths"""
    E.true(label + ": columns", list(df.columns) == names)
    if E.sym and not isinstance(df, pd.DataFrame):
        E.eq(label + ": " + names[0], df[names[0]].to_numpy() + 0 * lb, a + 0 * lb)
        E.eq(label + ": " + names[1], df[names[1]].to_numpy() + 0 * lb, b + 0 * lb)
        E.eq(label + ": wavelengths", df.index.data, lb)
        E.true(label + ": index name", df.index.name == "Wavelength")
    else:
        E.true(label + ": rows", df.shape == (len(lb), 2))
        E.eq(label + ": " + names[0], np.array(df[names[0]].to_list()), a + 0 * lb)
        E.eq(label + ": " + names[1], np.array(df[names[1]].to_list()), b + 0 * lb)
        E.eq(label + ": wavelengths", np.array(df.index.to_list()), lb)
        E.true(label + ": index name", df.index.name == "Wavelength")


def views(E, d, lb, label=""):
    """all views of one dispersion at the wavelengths lb"""
    m = E.m
    eps, n = d.get_dielectric(lb), d.get_refractive_index(lb)
    E.eq(label + "dielectric function is the square of the index", eps + 0 * lb, n ** 2 + 0 * lb, rtol=1e-9)
    if isinstance(d, IndexDispersion):
        E.eq(label + "index of the model", n + 0 * lb, d.refractive_index(lb) + 0 * lb, rtol=1e-12)
        E.eq(label + "dielectric_function of an index model", d.dielectric_function(lb) + 0 * lb, d.refractive_index(lb) ** 2 + 0 * lb, rtol=1e-12)
    else:
        E.eq(label + "dielectric function of the model", eps + 0 * lb, d.dielectric_function(lb) + 0 * lb, rtol=1e-12)
        E.true(label + "the root with a positive real part", m.all(m.real(n) >= 0))
    E.true(label + "complex values", eps.dtype == np.complex128 if not E.sym else eps.kind == "c")
    for conj in (False, True):
        s = -1 if conj else 1
        t = label + ("conjugated " if conj else "")
        frame(E, t + "dielectric frame", d.get_dielectric_df(lb, conj) if conj else d.get_dielectric_df(lb), ["ϵ1", "ϵ2"],
              m.real(eps), s * m.imag(eps), lb)
        frame(E, t + "index frame", d.get_refractive_index_df(lb, conjugate=conj), ["n", "k"], m.real(n), s * m.imag(n), lb)


@harness("C20", n=60)
def any_function(E):
    """for every dispersion, known only by its function"""
    lb = axis(E)
    kind = E.choose("kind", ["epsilon", "index"])
    d = AnyDispersion(E, "d") if kind == "epsilon" else AnyIndex(E, "d")
    views(E, d, lb)
    if kind == "epsilon":
        v = d.as_index()
        E.true("as_index is an index dispersion", isinstance(v, IndexDispersion))
        E.eq("as_index: dielectric function", v.get_dielectric(lb), d.get_dielectric(lb), rtol=1e-9)
        E.eq("as_index: index", v.get_refractive_index(lb), d.get_refractive_index(lb), rtol=1e-9)
        views(E, v, lb, "view: ")


@harness("C20", n=60)
def any_values(E):
    """for all values: complex, real, negative, zero"""
    lb = axis(E)
    d0 = lb.shape[0]
    kind = E.choose("values", ["complex", "real"])
    if kind == "complex":
        x = E.carray("x", (d0,), (-20.0, 20.0), (-2.0, 20.0), special=(-4.0, 0.0, 2.25, 1.0, 1j))
    else:
        x = E.rarray("x", (d0,), -20.0, 20.0, special=(-4.0, 0.0, 1.0))
    d = Given(x) if E.choose("kind", ["epsilon", "index"]) == "epsilon" else GivenIndex(x)
    n, eps = d.get_refractive_index(lb), d.get_dielectric(lb)
    E.eq("dielectric function is the square of the index", eps, n * n, rtol=1e-9)
    if isinstance(d, Dispersion):
        E.eq("as_index", d.as_index().get_refractive_index(lb), n)
        E.eq("as_index, dielectric", d.as_index().get_dielectric(lb), x + 0j)


@harness("C20", n=100, maxpaths=200)
def models(E):
    """the models of the library, also without wavelengths given and with a single one"""
    name = E.choose("model", [k for k in REAL if k != "any"])
    if E.sym and name == "cody":
        return
    lb = axis(E)
    d = REAL[name](E, "x")
    if E.sym and name in ("tanguy", "tauc"):
        # long expressions: the views are those of an arbitrary function (any_function)
        E.eq("index", d.as_index().get_dielectric(lb), d.get_dielectric(lb))
        return
    views(E, d, lb)
    if isinstance(d, Dispersion):
        v = d.as_index()
        E.eq("as_index: dielectric function", v.get_dielectric(lb), d.get_dielectric(lb), rtol=1e-9)
        E.eq("as_index: index", v.get_refractive_index(lb), d.get_refractive_index(lb), rtol=1e-9)


@harness("C20", n=60, sym=False)
def defaults(E):
    """without wavelengths: the default range, for tables the tabulated wavelengths"""
    name = E.choose("model", [k for k in REAL if not k.startswith("any")] + ["table list", "constant", "epsilon"])
    if name == "table list":
        n = E.choose("points", [1, 2, 5, 20])
        lb = np.random.default_rng(n).permutation(np.linspace(300.0, 800.0, n))
        y = [E.real(f"y{i}", 1.0, 3.0) for i in range(n)]
        d = (elli.Table if E.choose("kind", ["index", "epsilon"]) == "index" else elli.TableEpsilon)(list(lb), y)
        want = lb
        E.eq("the data", own(d)(lb), np.array(y))
    else:
        d = elli.ConstantRefractiveIndex(1.5) if name == "constant" else elli.EpsilonInf(2 + 1j) if name == "epsilon" else REAL[name](E, "x")
        want = np.asarray(d.default_lbda_range if name.startswith("table") else np.linspace(200, 1000, 801))
    for d in [d] + ([d.as_index()] if isinstance(d, Dispersion) else []):
        E.eq("dielectric", d.get_dielectric() + 0 * want, d.get_dielectric(want) + 0 * want)
        E.eq("index", d.get_refractive_index() + 0 * want, d.get_refractive_index(want) + 0 * want)
        df, dn = d.get_dielectric_df(), d.get_refractive_index_df(conjugate=True)
        E.eq("frame wavelengths", df.index.to_numpy(), want)
        E.eq("frame", df["ϵ1"].to_numpy() + 1j * df["ϵ2"].to_numpy(), d.get_dielectric(want) + 0 * want)
        E.eq("index frame", dn["n"].to_numpy() - 1j * dn["k"].to_numpy(), d.get_refractive_index(want) + 0 * want)


# ------------------------------------------------------------------------------------------------ tables
def points(E, n):
    """n distinct wavelengths in any order and the values at them"""
    x = [E.real(f"x{i}", 100.0, 3000.0) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(E.m.abs(x[i] - x[j]) > 0.5)
    y = [E.cplx(f"y{i}", (-5.0, 5.0), (0.0, 5.0)) for i in range(n)]
    return x, y


def table(E, kind, x, y):
    cls = {"index": elli.Table, "epsilon": elli.TableEpsilon}[kind]
    how = E.choose("arguments", ["positions", "keywords"]) if not E.sym else "keywords"
    if how == "positions":
        return cls(x, y)
    return cls(lbda=x, **{"n" if kind == "index" else "epsilon": y})


def make_table(n):
    @harness("C20", name=f"table_{n}", n=60, bounded=BOUND, maxpaths=4000, weight=2 if n > 2 else 1)
    def h(E):
        m = E.m
        kind = E.choose("kind", ["index", "epsilon"])
        x, y = points(E, n)
        d = table(E, kind, list(x), list(y))
        f = own(d)
        # the data, at every tabulated wavelength
        for i in range(n):
            E.eq(f"value at point {i}", f(m.array([x[i]])), m.array([y[i]]), rtol=1e-9)
        E.eq("values at all points", f(m.array(x)), m.array(y), rtol=1e-9)
        # between neighbours
        if n > 1:
            i, j = (0, 1) if n == 2 else E.choose("neighbours", [(a, b) for a in range(n) for b in range(n) if a != b])
            lo, hi = x[i], x[j]
            ok = lo < hi
            for k in range(n):
                if k not in (i, j):
                    ok = m.logical_and(ok, m.logical_or(x[k] < lo, x[k] > hi))
            if bool(ok):
                t = E.real("t", 0.0, 1.0)
                q = lo + t * (hi - lo)
                E.eq("linear between neighbours", f(m.array([q])), m.array([y[i] + t * (y[j] - y[i])]), rtol=1e-7, atol=1e-9)
    return h


for _n in (1, 2, 3, 4):
    make_table(_n)


@harness("C20", n=60, bounded=BOUND, maxpaths=2000)
def outside(E):
    """wavelengths outside of the table are refused, also when others are inside"""
    m = E.m
    kind = E.choose("kind", ["index", "epsilon"])
    n = E.choose("points", [1, 2, 3])
    x, y = points(E, n)
    d = table(E, kind, x, y)
    f = own(d)
    g = d.get_refractive_index if kind == "epsilon" else d.get_dielectric
    far = E.real("distance", 1e-3, 1000.0)
    low, high = x[0], x[0]
    for v in x[1:]:
        low, high = m.minimum(low, v), m.maximum(high, v)
    side = E.choose("side", ["below", "above"])
    q = low - far if side == "below" else high + far
    E.raises("alone", ValueError, lambda: f(m.array([q])))
    E.raises("together with a tabulated one", ValueError, lambda: f(m.array([x[0], q])))
    E.raises("through the other view", ValueError, lambda: g(m.array([q, x[0]])))
    if kind == "epsilon":
        E.raises("through as_index", ValueError, lambda: d.as_index().get_refractive_index(m.array([q])))


@harness("C20", n=40, maxpaths=200)
def refused(E):
    kind = E.choose("kind", ["index", "epsilon"])
    a, b = E.choose("lengths", [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 2), (4, 5), (0, 3)])
    x = [300.0 + 10 * i for i in range(a)]
    y = [E.real(f"y{i}", 1.0, 5.0) for i in range(b)]
    how = E.choose("container", ["list", "array"]) if not E.sym else "list"
    if how == "array":
        x, y = np.array(x), np.array(y)
    E.raises("unequal or empty columns", InvalidParameters, lambda: table(E, kind, x, y))


@harness("C20", n=80, sym=False)
def long_tables(E):
    """longer tables, other interpolations, other containers, and the cubic one of the pseudo-dielectric function"""
    n = E.choose("points", [4, 5, 9, 40])
    rng = np.random.default_rng(E.choose("seed", list(range(50))))
    x = rng.permutation(200.0 + np.cumsum(rng.uniform(1.0, 40.0, n)))
    y = rng.uniform(0.5, 4.0, n) + 1j * rng.uniform(0.0, 2.0, n)
    kind = E.choose("interpolation", [None, "linear", "slinear", "quadratic", "cubic", "nearest", "previous", "next", "zero"])
    cls = E.choose("class", ["Table", "TableEpsilon", "Pseudo"])
    box = E.choose("container", ["array", "list", "series"])
    put = {"array": lambda v: v, "list": list, "series": lambda v: pd.Series(v, index=range(5, 5 + len(v)))}[box]
    if cls == "Pseudo":
        psi, delta, angle = rng.uniform(5.0, 40.0, n), rng.uniform(10.0, 170.0, n), rng.uniform(30.0, 80.0)
        d = elli.PseudoDielectricFunction(angle, put(x), np.array(psi), np.array(delta))
        rho = np.tan(np.radians(psi)) * np.exp(-1j * np.radians(delta))
        t = np.radians(angle)
        y = np.sin(t) ** 2 * (1 + np.tan(t) ** 2 * ((1 - rho) / (1 + rho)) ** 2)
    else:
        kw = {} if kind is None else {"kind": kind}
        d = getattr(elli, cls)(put(x), put(y), **kw)
    E.eq("values at the points", own(d)(x), y, rtol=1e-7, scale=10.0)
    o = np.argsort(x)
    E.eq("values at some points, any order", own(d)(x[o][::2]), y[o][::2], rtol=1e-7, scale=10.0)
    if cls != "Pseudo" and kind in (None, "linear", "slinear"):
        t = rng.uniform(0, 1, n - 1)
        a, b = x[o], y[o]
        E.eq("linear between neighbours", own(d)(a[:-1] + t * np.diff(a)), b[:-1] + t * np.diff(b), rtol=1e-7, scale=10.0)
    for q in (x.min() - 1e-3, x.max() + 1e-3):
        E.raises("outside", ValueError, lambda: own(d)(np.array([x[0], q])))
