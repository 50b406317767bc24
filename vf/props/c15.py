"""C15 permittivity profiles"""
import numpy as np

import elli
from elli.structure import AbstractLayer
from ..engine import harness
from .common import Given, eps_array, EPS
from .c14 import GivenMaterial
from ..indexed import each, depends

LEN = "lists of at most 3 layers (and 2 nested ones), at most 5 slices and 3 repetitions; lengths, tensors and wavelengths arbitrary"


class AnyLayer(AbstractLayer):
    """a layer known only by its contract: some list of (thickness, tensor) slices"""

    def __init__(self, profile):
        self.profile = profile

    def get_permittivity_profile(self, lbda):
        return list(self.profile)


def slices(E, tag, k, d):
    return [(E.real(f"{tag}d{i}", 0.0, 500.0), E.carray(f"{tag}t{i}", (d, 3, 3), *EPS)) for i in range(k)]


def same(E, label, got, want):
    E.true(f"{label}: number of slices", len(got) == len(want))
    if len(got) != len(want):
        return
    for (gd, gt), (wd, wt) in zip(got, want):
        if wd == np.inf:
            E.true(f"{label}: half-space", bool(gd == np.inf))
        else:
            E.eq(f"{label}: thickness", gd, wd, scale=1)
        E.eq(f"{label}: tensor", gt, wt, scale=1)


def setting(E):
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    tf = E.carray("front", (d, 3, 3), *EPS)
    tb = E.carray("back", (d, 3, 3), *EPS)
    return d, lb, GivenMaterial(tf), tf, GivenMaterial(tb), tb


@harness("C15", n=80, bounded=LEN)
def structure_order(E):
    d, lb, F, tf, B, tb = setting(E)
    k = E.choose("layers", [0, 1, 2, 3])
    layers, want = [], [(np.inf, tf)]
    for i in range(k):
        kind = E.choose(f"kind{i}", ["homogeneous", "any1", "any2"] if k < 3 else ["homogeneous", "any2"])
        if kind == "homogeneous":
            th = E.real(f"th{i}", 0.0, 500.0)
            t = E.carray(f"t{i}", (d, 3, 3), *EPS)
            layers.append(elli.Layer(GivenMaterial(t), th))
            want.append((th, t))
        else:
            p = slices(E, f"s{i}", int(kind[-1]), d)
            layers.append(AnyLayer(p))
            want += p
    want.append((np.inf, tb))
    how = E.choose("how", ["init", "set", "set after use"])
    if how == "init":
        s = elli.Structure(F, layers, B)
    else:
        s = elli.Structure(B, [AnyLayer(slices(E, "other", 2, d))] * (k > 1), F)
        if how == "set after use":
            s.get_permittivity_profile(lb)
        s.set_layers(layers)
        s.set_front_material(F)
        s.set_back_material(B)
    same(E, "profile", s.get_permittivity_profile(lb), want)
    same(E, "profile again", s.get_permittivity_profile(lb), want)


@harness("C15", n=80, bounded=LEN, maxpaths=400)
def repeated(E):
    d, lb, F, tf, B, tb = setting(E)
    k = E.choose("layers", [1, 2, 3])
    n = E.choose("n", [1, 2, 3])
    before = E.choose("before", [0, 1, 2, 3])
    after = E.choose("after", [0, 1, 2, 3])
    E.assume(before <= k and after <= k)
    ps = [slices(E, f"s{i}", 2 if i == 1 else 1, d) for i in range(k)]
    layers = [AnyLayer(p) for p in ps]
    how = E.choose("how", ["init", "set"] + ["set after use"] * (n < 3))
    if how == "init":
        r = elli.RepeatedLayers(layers, n, before, after)
    elif how == "set":
        r = elli.RepeatedLayers(layers, n + 1, 0, 1)
        r.set_repetitions(n, before, after)
    else:
        r = elli.RepeatedLayers([AnyLayer(slices(E, "other", 2, d)) for _ in layers], n, 0, 1)
        r.get_permittivity_profile(lb)
        r.set_layers(layers)
        r.get_permittivity_profile(lb)
        r.set_repetitions(n, before, after)
    seq = (ps[k - before:] if before else []) + ps * n + ps[:after]
    want = [s for p in seq for s in p]
    same(E, "repeated", r.get_permittivity_profile(lb), want)
    same(E, "repeated again", r.get_permittivity_profile(lb), want)
    s = elli.Structure(F, [r], B)
    same(E, "in a structure", s.get_permittivity_profile(lb), [(np.inf, tf)] + want + [(np.inf, tb)])


@harness("C15", n=60, bounded=LEN)
def nested(E):
    d, lb, F, tf, B, tb = setting(E)
    n1 = E.choose("n1", [1, 2])
    n2 = E.choose("n2", [1, 2, 3])
    before = E.choose("before", [0, 1])
    after = E.choose("after", [0, 1])
    b1 = E.choose("inner before", [0, 1])
    pa, pb, pc = (slices(E, t, 1, d) for t in "abc")
    inner = elli.RepeatedLayers([AnyLayer(pa), AnyLayer(pb)], n1, b1, 0)
    p1 = (pb if b1 else []) + (pa + pb) * n1
    outer = elli.RepeatedLayers([AnyLayer(pc), inner], n2, before, after)
    want = (p1 if before else []) + (pc + p1) * n2 + (pc if after else [])
    same(E, "nested", outer.get_permittivity_profile(lb), want)
    s = elli.Structure(F, [AnyLayer(pa), outer, AnyLayer(pb)], B)
    same(E, "structure", s.get_permittivity_profile(lb), [(np.inf, tf)] + pa + want + pb + [(np.inf, tb)])


@harness("C15", n=80, bounded=LEN)
def twisted(E):
    m = E.m
    d, lb, F, tf, B, tb = setting(E)
    th = E.real("thickness", 0.0, 3000.0)
    n = E.choose("div", [1, 2, 3, 4, 5] if E.sym else [1, 2, 3, 4, 5, 17, 40])
    ang = E.angle("angle", -720.0, 720.0)
    t = E.carray("t", (d, 3, 3), *EPS)
    how = E.choose("how", ["init", "set", "thickness after use", "divisions after use", "angle after use", "material after use"])
    if how == "init":
        L = elli.TwistedLayer(GivenMaterial(t), th, n, ang)
    else:
        mat = GivenMaterial(t)
        old = {"thickness": th, "divisions": n, "angle": ang, "material": mat}
        new = dict(old)
        for k, v in {"thickness": th + 1, "divisions": n + 2, "angle": 10.0, "material": GivenMaterial(0.5 * t)}.items():
            if how == "set" or how.startswith(k):
                old[k] = v
        L = elli.TwistedLayer(old["material"], old["thickness"], old["divisions"], old["angle"])
        if how != "set":
            L.get_permittivity_profile(lb)
        for k in new:
            if old[k] is not new[k]:
                getattr(L, "set_" + k)(new[k])
    p = L.get_permittivity_profile(lb)
    E.true("number of slices", len(p) == n)
    tot = 0
    for i, (h, eps) in enumerate(p):
        E.eq("equal slices", h, th / n, scale=1)
        E.true("non-negative", h >= 0)
        tot = tot + h
        a = m.deg2rad(ang * (i + 0.5) / n)
        E.assume(th > 0)
        R = m.array([[m.cos(a), -m.sin(a), 0 * a], [m.sin(a), m.cos(a), 0 * a], [0 * a, 0 * a, 1 + 0 * a]])
        E.eq("tensor at the slice centre", eps, m.matmul(m.matmul(R, t), m.transpose(R)), scale=20)
    E.eq("thicknesses add", tot, th, scale=1)
    s = elli.Structure(F, [L], B)
    same(E, "in a structure", s.get_permittivity_profile(lb), [(np.inf, tf)] + p + [(np.inf, tb)])


@harness("C15", n=60)
def twisted_any(E):
    """any number of divisions"""
    m = E.m
    d, lb, F, tf, B, tb = setting(E)
    th = E.real("thickness", 0.0, 3000.0, lo_open=True)
    n = E.integer("div", 1, None if E.sym else 60)
    ang = E.angle("angle", -720.0, 720.0)
    t = E.carray("t", (d, 3, 3), *EPS)
    L = elli.TwistedLayer(GivenMaterial(t), th, n, ang)
    for k, (h, eps) in each(E, "slices", L.get_permittivity_profile(lb), n):
        E.eq("n equal slices fill the layer", n * h, th, scale=1)
        a = m.deg2rad(ang * ((k + 0.5) / n))
        R = m.array([[m.cos(a), -m.sin(a), 0 * a], [m.sin(a), m.cos(a), 0 * a], [0 * a, 0 * a, 1 + 0 * a]])
        E.eq("tensor at the slice centre", eps, m.matmul(m.matmul(R, t), m.transpose(R)), scale=20)


@harness("C15", n=60)
def varying_mixture_any(E):
    """any number of divisions, any modulation"""
    d, lb, F, tf, B, tb = setting(E)
    th = E.real("thickness", 0.0, 3000.0, lo_open=True)
    n = E.integer("div", 1, None if E.sym else 60)
    h = E.carray("h", (d, 3, 3), *EPS)
    g = E.carray("g", (d, 3, 3), *EPS)
    mix = elli.VCAMaterial(GivenMaterial(h), GivenMaterial(g), 0.3)
    seen, given = [], []

    def mod(x):
        seen.append(x)
        given.append(depends(E.real(f"f{len(given)}", 0.0, 1.0), x))
        return given[-1]
    which = E.choose("modulation", ["default", "given"])
    L = elli.VaryingMixtureLayer(mix, th, n, mod) if which == "given" else elli.VaryingMixtureLayer(mix, th, n)
    for i, (k, (hh, eps)) in enumerate(each(E, "slices", L.get_permittivity_profile(lb), n)):
        E.eq("n equal slices fill the layer", n * hh, th, scale=1)
        f = (k + 0.5) / n
        if which == "given":
            E.eq("modulation argument", seen[i], f)
            f = given[i]
        E.eq("tensor", eps, (1 - f) * h + f * g, scale=20)
    E.true("called once per slice", which == "default" or len(seen) == len(given) == (1 if E.sym else n))
    E.true("fraction of the mixture kept", mix.fraction == 0.3)


@harness("C15", n=80, bounded=LEN)
def varying_mixture(E):
    d, lb, F, tf, B, tb = setting(E)
    th = E.real("thickness", 0.0, 3000.0, lo_open=True)
    n = E.choose("div", [1, 2, 3, 4, 5] if E.sym else [1, 2, 3, 4, 5, 17, 40])
    h = E.carray("h", (d, 3, 3), *EPS)
    g = E.carray("g", (d, 3, 3), *EPS)
    mix = elli.VCAMaterial(GivenMaterial(h), GivenMaterial(g), 0.3)
    seen = []
    given = [E.real(f"f{i}", 0.0, 1.0) for i in range(n)]

    def mod(x):
        seen.append(x)
        return given[len(seen) - 1]
    which = E.choose("modulation", ["default", "given", "set", "thickness after use", "divisions after use",
                                    "modulation after use", "material after use"])
    if which == "default":
        L = elli.VaryingMixtureLayer(mix, th, n)
        fs = [(i + 0.5) / n for i in range(n)]
    elif which == "given":
        L = elli.VaryingMixtureLayer(mix, th, n, mod)
        fs = given
    elif which != "set":
        first = which.split()[0]
        L = elli.VaryingMixtureLayer(elli.VCAMaterial(GivenMaterial(g), GivenMaterial(h), 0.3) if first == "material" else mix,
                                     th + (first == "thickness"), n + (first == "divisions"),
                                     (lambda x: 0.25 + x / 2) if first == "modulation" else (lambda x: 1 - x))
        L.get_permittivity_profile(lb)
        if first == "modulation":
            L.set_fraction_modulation(mod)
            fs = given
        else:
            fs = [1 - (i + 0.5) / n for i in range(n)]
            getattr(L, "set_" + first)({"thickness": th, "divisions": n, "material": mix}[first])
    else:
        L = elli.VaryingMixtureLayer(mix, th + 2, n + 1)
        L.set_fraction_modulation(mod)
        L.set_thickness(th)
        L.set_divisions(n)
        fs = given
    p = L.get_permittivity_profile(lb)
    E.true("number of slices", len(p) == n)
    tot = 0
    for i, (hh, eps) in enumerate(p):
        E.eq("equal slices", hh, th / n, scale=1)
        tot = tot + hh
        E.eq("tensor", eps, (1 - fs[i]) * h + fs[i] * g, scale=20)
        if fs is given:
            E.eq("modulation argument", seen[i], (i + 0.5) / n)
    E.eq("thicknesses add", tot, th, scale=1)
    if fs is given:
        E.true("called once per slice", len(seen) == n)
    E.true("fraction of the mixture kept", mix.fraction == 0.3)


@harness("C15", n=40)
def homogeneous(E):
    """a layer shows its current material and thickness"""
    d, lb, F, tf, B, tb = setting(E)
    th, th2 = E.real("thickness", 0.0, 3000.0), E.real("other thickness", 0.0, 3000.0)
    t, t2 = E.carray("t", (d, 3, 3), *EPS), E.carray("t2", (d, 3, 3), *EPS)
    L = elli.Layer(GivenMaterial(t), th)
    s = elli.Structure(F, [L], B)
    same(E, "profile", s.get_permittivity_profile(lb), [(np.inf, tf), (th, t), (np.inf, tb)])
    L.set_thickness(th2)
    same(E, "other thickness", s.get_permittivity_profile(lb), [(np.inf, tf), (th2, t), (np.inf, tb)])
    L.set_material(GivenMaterial(t2))
    same(E, "other material", s.get_permittivity_profile(lb), [(np.inf, tf), (th2, t2), (np.inf, tb)])
    s.set_layers([L, L])
    same(E, "layer used twice", s.get_permittivity_profile(lb), [(np.inf, tf), (th2, t2), (th2, t2), (np.inf, tb)])
    s.layers.append(elli.Layer(GivenMaterial(t), th))
    same(E, "layer appended", s.get_permittivity_profile(lb), [(np.inf, tf), (th2, t2), (th2, t2), (th, t), (np.inf, tb)])


@harness("C15", n=30, bounded=LEN)
def zero_thickness(E):
    d, lb, F, tf, B, tb = setting(E)
    t = E.carray("t", (d, 3, 3), *EPS)
    n = E.choose("div", [1, 2, 5])
    z = E.choose("zero", [0, 0.0])
    L = elli.TwistedLayer(GivenMaterial(t), z, n, 90.0) if E.choose("kind", ["twisted", "mixture"]) == "twisted" else \
        elli.VaryingMixtureLayer(elli.VCAMaterial(GivenMaterial(t), GivenMaterial(t), 0.3), z, n)
    p = L.get_permittivity_profile(lb)
    E.true("number of slices", len(p) == n)
    for h, eps in p:
        E.eq("no thickness", h, 0.0)
        if not E.sym:
            E.true("finite", bool(np.all(np.isfinite(eps))))


@harness("C15", n=40)
def rejected(E):
    m = elli.IsotropicMaterial(elli.Cauchy(1.5))
    mix = elli.VCAMaterial(m, m, 0.5)
    neg = E.real("neg", -1000.0, 0.0, hi_open=True, special=(-1e-9,))
    E.raises("negative thickness", ValueError, lambda: elli.Layer(m, neg))
    E.raises("negative thickness set", ValueError, lambda: elli.Layer(m, 1).set_thickness(neg))
    E.raises("negative twisted", ValueError, lambda: elli.TwistedLayer(m, neg, 3, 90))
    E.raises("negative mixture", ValueError, lambda: elli.VaryingMixtureLayer(mix, neg, 3))
    k = E.integer("k", -5, 0)
    lay = elli.Layer(m, 10)
    E.raises("no slices", ValueError, lambda: elli.TwistedLayer(m, 10, k, 90))
    E.raises("no slices set", ValueError, lambda: elli.TwistedLayer(m, 10, 3, 90).set_divisions(k))
    E.raises("no slices mixture", ValueError, lambda: elli.VaryingMixtureLayer(mix, 10, k))
    E.raises("no repetition", ValueError, lambda: elli.RepeatedLayers([lay], k))
    E.raises("negative before", ValueError, lambda: elli.RepeatedLayers([lay], 1, k - 1, 0))
    E.raises("negative after", ValueError, lambda: elli.RepeatedLayers([lay], 1, 0, k - 1))
