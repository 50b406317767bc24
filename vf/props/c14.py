"""C14 effective media"""
import numpy as np

import elli
from elli.materials import Material
from ..engine import harness
from .common import Given, eps_array, EPS

SP = (1, 2.25, 0, -4 + 0.5j, 0.1j)


class GivenMaterial(Material):
    """a material with an arbitrary tensor per wavelength"""

    def __init__(self, t):
        self.t = t

    def get_tensor(self, lbda):
        return self.t


def passive(E, name, d):
    return E.carray(name, (d,), (-20.0, 20.0), (0.0, 20.0), special=SP)


def diagonal(E, tag, d):
    """diagonal passive tensors: isotropic, uniaxial or biaxial material of given dispersions"""
    kind = E.choose("kind " + tag, ["isotropic", "biaxial"])
    if kind == "isotropic":
        e = passive(E, tag, d)
        return elli.IsotropicMaterial(Given(e)), [e, e, e]
    es = [passive(E, f"{tag}{i}", d) for i in range(3)]
    return elli.BiaxialMaterial(*[Given(e) for e in es]), es


CLASSES = {"VCA": elli.VCAMaterial, "Looyenga": elli.LooyengaEMA, "MaxwellGarnett": elli.MaxwellGarnettEMA,
           "Bruggeman": elli.BruggemanEMA}


def make(E, cls, H, G, f, lb):
    """the ways to evaluate a mixture at the fraction f"""
    how = E.choose("how", ["init", "set", "fraction after use", "overwrite"])
    if how == "init":
        return cls(H, G, f).get_tensor(lb)
    if how == "set":
        m = cls(G, H, 0.25)
        m.set_constituents(H, G)
        m.set_fraction(f)
        return m.get_tensor(lb)
    if how == "fraction after use":
        m = cls(H, G, 0.25)
        m.get_tensor(lb)
        m.set_fraction(f)
        return m.get_tensor(lb)
    m = cls(H, G, 0.75)
    m.get_tensor(lb)
    return m.get_tensor_fraction(lb, f)


def offdiag(E, t, d0):
    for i in range(3):
        for j in range(3):
            if i != j:
                E.eq(f"off-diagonal {i}{j}", t[:, i, j], 0 * d0, atol=1e-12)


@harness("C14", n=60)
def vca(E):
    """any tensors, also rotated"""
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th = E.carray("h", (d, 3, 3), *EPS)
    tg = E.carray("g", (d, 3, 3), *EPS)
    f = E.real("f", 0.0, 1.0)
    t = make(E, elli.VCAMaterial, GivenMaterial(th), GivenMaterial(tg), f, lb)
    E.eq("linear mean", t, (1 - f) * th + f * tg, scale=10)


@harness("C14", n=80)
def looyenga(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    H, eh = diagonal(E, "h", d)
    G, eg = diagonal(E, "g", d)
    f = E.real("f", 0.0, 1.0)
    t = make(E, elli.LooyengaEMA, H, G, f, lb)
    for i in range(3):
        E.eq(f"cube of the mean cube roots {i}", t[:, i, i],
             ((1 - f) * eh[i] ** (1 / 3) + f * eg[i] ** (1 / 3)) ** 3, scale=1)
    offdiag(E, t, eh[0])


@harness("C14", n=80)
def maxwell_garnett(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    H, eh = diagonal(E, "h", d)
    G, eg = diagonal(E, "g", d)
    f = E.real("f", 0.0, 1.0)
    for i in range(3):
        E.assume(m.abs(2 * eh[i] + eg[i] - f * (eg[i] - eh[i])) > 1e-3)
    t = make(E, elli.MaxwellGarnettEMA, H, G, f, lb)
    for i in range(3):
        den = 2 * eh[i] + eg[i] - f * (eg[i] - eh[i])
        E.eq(f"Maxwell Garnett {i}", t[:, i, i] * den, eh[i] * (2 * f * (eg[i] - eh[i]) + eg[i] + 2 * eh[i]), scale=1)
    offdiag(E, t, eh[0])


@harness("C14", n=80)
def bruggeman(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    H, eh = diagonal(E, "h", d)
    G, eg = diagonal(E, "g", d)
    f = E.real("f", 0.0, 1.0)
    for i in range(3):
        E.assume(m.abs(eh[i]) > 1e-3)
        E.assume(m.abs(eg[i]) > 1e-3)
    t = make(E, elli.BruggemanEMA, H, G, f, lb)
    for i in range(3):
        x = t[:, i, i]
        E.eq(f"Bruggeman {i}", 2 * x ** 2 + ((3 * f - 2) * eh[i] + (1 - 3 * f) * eg[i]) * x, eh[i] * eg[i], scale=50)
    offdiag(E, t, eh[0])


def ends(E, cls):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    H, eh = diagonal(E, "h", d)
    G, eg = diagonal(E, "g", d)
    for i in range(3):
        E.assume(m.abs(eh[i]) > 1e-3)
        E.assume(m.abs(eg[i]) > 1e-3)
    end = E.choose("end", [0, 1, 0.0, 1.0])
    t = make(E, cls, H, G, end, lb)
    want = eh if end == 0 else eg
    for i in range(3):
        E.eq(f"pure constituent {i}", t[:, i, i], want[i], scale=1)
    offdiag(E, t, eh[0])


@harness("C14", n=60)
def looyenga_ends(E):
    ends(E, elli.LooyengaEMA)


@harness("C14", n=60)
def maxwell_garnett_ends(E):
    ends(E, elli.MaxwellGarnettEMA)


@harness("C14", n=60)
def vca_ends(E):
    ends(E, elli.VCAMaterial)


def indices(E, tag, d):
    """diagonal material given by its complex refractive indices (first quadrant, no lossless metal: known finding)"""
    kind = E.choose("kind " + tag, ["isotropic", "biaxial"])
    ns = []
    for i in range(1 if kind == "isotropic" else 3):
        n = E.carray(f"{tag}{i}", (d,), (0.05, 5.0), (0.0, 5.0), special=(1, 1.5, 2j + 0.1, 3))
        E.root_hint(n)
        ns.append(n)
    if kind == "isotropic":
        return elli.IsotropicMaterial(Given(ns[0] ** 2)), [ns[0]] * 3
    return elli.BiaxialMaterial(*[Given(n ** 2) for n in ns]), ns


@harness("C14", n=60, trusted=["principal square root: sqrt(x**2) = x for Re x > 0 (each use is an obligation Re x > 0)"])
def bruggeman_ends(E):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    H, nh = indices(E, "h", d)
    G, ng = indices(E, "g", d)
    end = E.choose("end", [0, 1, 0.0, 1.0])
    for i in range(3):
        p = nh[i] / ng[i]
        x = (2 * p + 1 / p) / 4 if end == 0 else (2 / p + p) / 4
        E.true("root is the principal one", m.real(x) > 0)
        E.root_hint(x)
    t = make(E, elli.BruggemanEMA, H, G, end, lb)
    want = nh if end == 0 else ng
    for i in range(3):
        E.eq(f"pure constituent {i}", t[:, i, i], want[i] ** 2, scale=1)
    offdiag(E, t, nh[0])


@harness("C14", n=80)
def equal_components(E):
    """components equal in host and guest stay unchanged"""
    m = E.m
    name = E.choose("formula", list(CLASSES))
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    e = passive(E, "same", d)
    H = elli.IsotropicMaterial(Given(e))
    o = passive(E, "g", d)
    E.assume(m.abs(e) > 1e-3)
    E.assume(m.abs(o) > 1e-3)
    f = E.real("f", 0.0, 1.0)
    if name == "MaxwellGarnett":
        E.assume(m.abs(2 * e + o - f * (o - e)) > 1e-3)
    G = elli.UniaxialMaterial(Given(e), Given(o))
    t = make(E, CLASSES[name], H, G, f, lb)
    E.eq("xx", t[:, 0, 0], e, scale=1)
    E.eq("yy", t[:, 1, 1], e, scale=1)


@harness("C14", n=40)
def fraction_rejected(E):
    m = elli.IsotropicMaterial(elli.Cauchy(1.5))
    g = elli.IsotropicMaterial(elli.Cauchy(2.5))
    cls = CLASSES[E.choose("formula", list(CLASSES))]
    side = E.choose("side", ["below", "above"])
    f = E.real("below", -10.0, 0.0, hi_open=True, special=(-1e-12, -1.0)) if side == "below" else \
        E.real("above", 1.0, 10.0, lo_open=True, special=(1 + 1e-12, 2.0))
    E.raises("outside rejected", ValueError, lambda: cls(m, g, f))
    mix = cls(m, g, 0.5)
    E.raises("outside rejected by set_fraction", ValueError, lambda: mix.set_fraction(f))
    E.true("old fraction kept", mix.fraction == 0.5)
    for k, bad in enumerate((float("nan"), np.nan, "0.5", None)):
        E.raises(f"not a number {k}", (ValueError, TypeError), lambda: cls(m, g, bad))
        E.raises(f"not a number {k} in set_fraction", (ValueError, TypeError), lambda: mix.set_fraction(bad))
    E.raises("infinite", ValueError, lambda: cls(m, g, float("inf")))
    ok = E.real("ok", 0.0, 1.0)
    E.eq("accepted", cls(m, g, ok).fraction, ok)
