"""C17 closed forms of the dispersion models"""
import math

import numpy as np
import scipy.constants as sc
import scipy.special as sp

import elli
from elli import dispersions as D
from elli.utils import conversion_wavelength_energy as energy
from ..engine import harness
from ..fold import AnyList
from .. import shims

PI = math.pi


class Fn:
    """the special functions the formulas are written in, in both worlds"""

    def __init__(self, E):
        self.E = E

    def __getattr__(self, n):
        f = getattr(sp, n)
        return shims.replacement_map()[id(f)] if self.E.sym else f


def axis(E):
    how = E.choose("wavelengths", ["array", "scalar"])
    if how == "scalar":
        return E.real("lbda", 100.0, 20000.0, special=(500.0,))
    d = E.dim("N")
    return E.rarray("lbda", (d,), 100.0, 20000.0, axis=True)


def single(E, cls, ranges, tag=""):
    """an instance with arbitrary values for the given parameters, bound by name, and those values"""
    p = {k: E.real(k + tag, *r) for k, r in ranges.items()}
    return cls(**p), p


def same(E, label, got, want, lb):
    """got may be a constant for constant models"""
    E.eq(label, got + 0 * lb, want + 0 * lb, rtol=1e-9)


def repeated(E, cls, ranges, base, term, sp_ranges=None, after=None, assume=None):
    """f(list) = base + sum of the terms of all sets, for lists of every length"""
    lb = axis(E)
    d, sv = single(E, cls, sp_ranges or {})
    f = d.refractive_index if isinstance(d, elli.dispersions.base_dispersion.IndexDispersion) else d.dielectric_function
    same(E, "no sets: base value", f(lb), base(lb, **sv), lb)
    draw = lambda i: {k: E.real(f"{k}{i}", *r) for k, r in ranges.items()}
    if E.sym:
        c = draw("")
        if assume:
            assume(lb, c, sv)
        L = AnyList(E, "sets", c)
        d.rep_params = L
        L.phase(False)
        before = f(lb)
        L.phase(True)
        E.eq("one more set adds its term", f(lb) - before, term(lb, **c, **sv) + 0 * lb)
        if after:
            after(lb, term(lb, **c, **sv), c, sv)
    else:
        n = E.choose("sets", [0, 1, 2, 3, 4])
        want = base(lb, **sv)
        for i in range(n):
            c = draw(i)
            if assume:
                assume(lb, c, sv)
            how = E.choose(f"how{i}", ["keywords", "positions"])
            r = d.add(**c) if how == "keywords" else d.add(*c.values())
            E.true("add returns the model", r is d)
            t = term(lb, **c, **sv)
            want = want + t
            if after:
                after(lb, t, c, sv)
        same(E, "sum over the sets", f(lb), want, lb)


# ------------------------------------------------------------------------------------------------ single parameters
@harness("C17", n=60)
def cauchy(E):
    lb = axis(E)
    d, p = single(E, D.Cauchy, {k: (-3.0, 3.0) for k in ("n0", "n1", "n2", "k0", "k1", "k2")})
    w = lambda a: p[a + "0"] + 100 * p[a + "1"] / lb ** 2 + 10 ** 7 * p[a + "2"] / lb ** 4
    same(E, "index", d.refractive_index(lb), w("n") + 1j * w("k"), lb)
    d, p = single(E, D.Cauchy, {k: (0.0, 3.0) for k in ("n0", "n1", "n2", "k0", "k1", "k2")}, "+")
    E.true("k is not negative", E.m.all(E.m.imag(d.refractive_index(lb)) >= 0))


@harness("C17", n=60)
def cauchy_urbach(E):
    lb = axis(E)
    d, p = single(E, D.CauchyUrbach, {"n0": (0.1, 3.0), "B": (-1.0, 1.0), "C": (-1.0, 1.0), "D": (0.0, 3.0), "Eg": (0.1, 8.0),
                                      "Eu": (0.2, 2.0)})
    e = energy(lb)
    got = d.refractive_index(lb)
    same(E, "index", got, p["n0"] + p["B"] * e ** 2 + p["C"] * e ** 4 + 1j * p["D"] * E.m.exp((e - p["Eg"]) / p["Eu"]), lb)
    E.true("k is not negative", E.m.all(E.m.imag(got) >= 0))


@harness("C17", n=40)
def constants(E):
    lb = axis(E)
    n = E.cplx("n", (0.1, 5.0), (0.0, 5.0))
    same(E, "constant index", D.ConstantRefractiveIndex(n).refractive_index(lb), n, lb)
    same(E, "dielectric function of a constant index", D.ConstantRefractiveIndex(n=n).dielectric_function(lb), n ** 2, lb)
    e = E.cplx("e", (-5.0, 5.0), (0.0, 5.0))
    same(E, "epsilon infinity", D.EpsilonInf(e).dielectric_function(lb), e, lb)


@harness("C17", n=60)
def drude(E):
    lb = axis(E)
    e = energy(lb)
    d, p = single(E, D.DrudeEnergy, {"A": (0.0, 100.0), "gamma": (0.0, 5.0)})
    got = d.dielectric_function(lb)
    same(E, "energy", got, p["A"] / (e ** 2 - 1j * p["gamma"] * e), lb)
    E.true("energy: not amplifying", E.m.all(E.m.imag(got) >= 0))
    d, p = single(E, D.DrudeResistivity, {"rho_opt": (1e-6, 1.0), "tau": (1e-17, 1e-12)})
    got = d.dielectric_function(lb)
    hbar = sc.value("Planck constant in eV/Hz") / 2 / np.pi
    eps0 = sc.value("vacuum electric permittivity") * 1e-2
    same(E, "resistivity", got, hbar ** 2 / (eps0 * p["rho_opt"] * (p["tau"] * e ** 2 - 1j * hbar * e)), lb)
    E.true("resistivity: not amplifying", E.m.all(E.m.imag(got) >= 0))


@harness("C17", n=60)
def poles(E):
    lb = axis(E)
    d, p = single(E, D.Poles, {"A_ir": (0.0, 10.0), "A_uv": (0.0, 100.0), "E_uv": (13.0, 30.0)})
    e = energy(lb)
    same(E, "poles", d.dielectric_function(lb), p["A_ir"] / e ** 2 + p["A_uv"] / (p["E_uv"] ** 2 - e ** 2), lb)


# ------------------------------------------------------------------------------------------------ repeated parameters
def positive(E):
    return lambda lb, t, c, s: E.true("not amplifying", E.m.all(E.m.imag(t) >= 0))


@harness("C17", n=60)
def lorentz_energy(E):
    def term(lb, A, E, gamma):
        e = energy(lb)
        return A / (E ** 2 - e ** 2 - 1j * gamma * e)
    repeated(E, D.LorentzEnergy, {"A": (0.0, 100.0), "E": (0.0, 15.0), "gamma": (0.001, 5.0)}, lambda lb: 1, term,
             after=positive(E))


@harness("C17", n=60)
def lorentz_lambda(E):
    repeated(E, D.LorentzLambda, {"A": (0.0, 100.0), "lambda_r": (0.0, 9000.0), "gamma": (0.1, 500.0)}, lambda lb: 1,
             lambda lb, A, lambda_r, gamma: A * lb ** 2 / (lb ** 2 - lambda_r ** 2 - 1j * gamma * lb), after=positive(E))


@harness("C17", n=60)
def gaussian(E):
    F = Fn(E)

    def term(lb, A, E, sigma):
        e = energy(lb)
        s = 2 * np.sqrt(np.log(2)) / sigma
        m, = (term.m,)
        return (2 * A / np.sqrt(np.pi) * (F.dawsn(s * (e + E)) - F.dawsn(s * (e - E)))
                + 1j * A * (m.exp(-(s * (e - E)) ** 2) - m.exp(-(s * (e + E)) ** 2)))
    term.m = E.m
    repeated(E, D.Gaussian, {"A": (0.0, 100.0), "E": (0.0, 15.0), "sigma": (0.05, 5.0)}, lambda lb: 0, term,
             after=positive(E))


@harness("C17", n=60)
def sellmeier(E):
    repeated(E, D.Sellmeier, {"A": (-3.0, 3.0), "B": (-3.0, 0.009)}, lambda lb: 1,
             lambda lb, A, B: A * (lb / 1000) ** 2 / ((lb / 1000) ** 2 - B))


@harness("C17", n=60)
def sellmeier_custom(E):
    repeated(E, D.SellmeierCustomExponent, {"A": (-3.0, 3.0), "e_A": (0.0, 3.0), "B": (0.001, 0.009), "e_B": (1.0, 3.0)},
             lambda lb: 0,
             lambda lb, A, e_A, B, e_B: A * (lb / 1000) ** e_A / ((lb / 1000) ** 2 - B ** e_B))


@harness("C17", n=60)
def polynomial(E):
    repeated(E, D.Polynomial, {"f": (-3.0, 3.0), "e": (-3.0, 3.0)}, lambda lb, e0: e0,
             lambda lb, f, e, e0: f * lb ** e, {"e0": (-5.0, 5.0)})


@harness("C17", n=60)
def cauchy_custom(E):
    repeated(E, D.CauchyCustomExponent, {"f": (-3.0, 3.0), "e": (-3.0, 3.0)}, lambda lb, n0: n0,
             lambda lb, f, e, n0: f * lb ** e, {"n0": (-5.0, 5.0)})


# ------------------------------------------------------------------------------------------------ Tauc-Lorentz
def jellison_modine(m, e, A, E0, C, Eg):
    """real part, Jellison and Modine, Appl. Phys. Lett. 69, 371 and 2137 (1996), eps1(inf) = 0"""
    al = m.csqrt(4 * E0 ** 2 - C ** 2)
    g2 = E0 ** 2 - C ** 2 / 2
    z4 = (e ** 2 - g2) ** 2 + (4 * E0 ** 2 - C ** 2) * C ** 2 / 4
    aln = (Eg ** 2 - E0 ** 2) * e ** 2 + Eg ** 2 * C ** 2 - E0 ** 2 * (E0 ** 2 + 3 * Eg ** 2)
    aat = (e ** 2 - E0 ** 2) * (E0 ** 2 + Eg ** 2) + Eg ** 2 * C ** 2
    return (A * C * aln / (2 * PI * z4 * al * E0) * m.log((E0 ** 2 + Eg ** 2 + al * Eg) / (E0 ** 2 + Eg ** 2 - al * Eg))
            - A * aat / (PI * z4 * E0) * (PI - m.arctan((2 * Eg + al) / C) + m.arctan((-2 * Eg + al) / C))
            + 2 * A * E0 * Eg / (PI * z4 * al) * (e ** 2 - g2) * (PI + 2 * m.arctan(2 * (g2 - Eg ** 2) / (al * C)))
            - A * E0 * C * (e ** 2 + Eg ** 2) / (PI * z4 * e) * m.log(m.abs(e - Eg) / (e + Eg))
            + 2 * A * E0 * C * Eg / (PI * z4) * m.log(m.abs(e - Eg) * (e + Eg)
                                                     / m.csqrt((E0 ** 2 - Eg ** 2) ** 2 + Eg ** 2 * C ** 2)))


def tauc_imag(m, e, A, E0, C, Eg):
    return m.where(e > Eg, A * E0 * C * (e - Eg) ** 2 / ((e ** 2 - E0 ** 2) ** 2 + C ** 2 * e ** 2) / e, 0 * e)


@harness("C17", n=60)
def tauc_lorentz(E):
    m = E.m
    # alpha is imaginary for an overdamped oscillator; the expression is real all the same
    how = E.choose("oscillator", ["underdamped", "overdamped"])

    def oscillator(lb, c, s):
        E.assume(c["C"] < 2 * c["E"] if how == "underdamped" else c["C"] > 2.001 * c["E"])
        E.assume(m.all(m.abs(energy(lb) - s["Eg"]) > 1e-3))
        E.assume(m.abs(c["E"] - s["Eg"]) + c["C"] > 1e-2)

    def term(lb, A, E, C, Eg):
        e = energy(lb)
        return jellison_modine(m, e, A, E, C, Eg) + 1j * tauc_imag(m, e, A, E, C, Eg)

    def after(lb, t, c, s):
        e = energy(lb)
        im = tauc_imag(m, e, c["A"], c["E"], c["C"], s["Eg"])
        # the rest of the term (Jellison and Modine's expression) is real for C < 2 E: im is the model's imaginary part
        E.true("no absorption below the gap", m.all(m.logical_or(e > s["Eg"], im == 0)))
        E.true("not amplifying", m.all(im >= 0))
    repeated(E, D.TaucLorentz, {"A": (0.0, 200.0), "E": (0.2, 12.0) if how == "underdamped" else (0.2, 4.0),
                                "C": (0.05, 10.0)}, lambda lb, Eg: 0, term,
             {"Eg": (0.05, 8.0)}, after, oscillator)


# ------------------------------------------------------------------------------------------------ Cody-Lorentz
def cody_imag(m, e, Eg, A, Et, gamma, Ep, E0, Eu):
    G = lambda x: (x - Eg) ** 2 / ((x - Eg) ** 2 + Ep ** 2)
    L = lambda x: A * E0 * gamma * x / ((x ** 2 - E0 ** 2) ** 2 + gamma ** 2 * x ** 2)
    return m.where(e > Et, G(e) * L(e), Et * G(Et) * L(Et) / e * m.exp((e - Et) / Eu))


CODY = {"Eg": (0.5, 3.0), "A": (0.0, 200.0), "Et": (0.5, 4.0), "gamma": (0.1, 5.0), "Ep": (0.1, 3.0), "E0": (0.5, 8.0),
        "Eu": (0.02, 1.0)}


@harness("C17", n=60)
def cody_lorentz_imaginary(E):
    lb = axis(E)
    p = {k: E.real(k, *r) for k, r in CODY.items()}
    e = energy(lb)
    got = D.CodyLorentz.eps2(e, **p)
    E.eq("imaginary part", got, cody_imag(E.m, e, **p), rtol=1e-9)
    E.true("not amplifying", E.m.all(got >= 0))
    E.true("decays below the gap", E.m.all(E.m.logical_or(e > p["Et"], got * e <= D.CodyLorentz.eps2(
        p["Et"], **p) * p["Et"] * (1 + 1e-9))))


@harness("C17", n=30, sym=False)
def cody_lorentz(E):
    """both parts of the model: the real part is the Kramers-Kronig transform of the imaginary part on the model's grid"""
    lb = E.rarray("lbda", (E.dim("N"),), 100.0, 9000.0, axis=True)
    p = {k: E.real(k, *r) for k, r in CODY.items()}
    got = D.CodyLorentz(**p).dielectric_function(lb)
    E.eq("imaginary part of the model", got.imag, cody_imag(np, energy(lb), **p), rtol=1e-9)
    grid = np.linspace(50, 10000, 1000)
    im, h = cody_imag(np, energy(grid), **p), grid[1] - grid[0]
    i = np.arange(1000)
    x, y = grid[:, None], grid[None, :]
    with np.errstate(all="ignore"):
        k = np.where((i[:, None] - i[None, :]) % 2 == 1, im[None, :] / (y * (1 - (y / x) ** 2)), 0)
    want = np.interp(lb, grid, 4 / np.pi * h * k.sum(1))
    E.eq("real part of the model", got.real, want, rtol=1e-9, scale=max(1.0, float(np.max(np.abs(want)))))


# ------------------------------------------------------------------------------------------------ Tanguy
def tanguy_value(m, F, e, A, d, gamma, R, Eg, a, b):
    def g(x):
        if d == 2:
            return 2 * m.log(x) - 2 * F.digamma(0.5 - x)
        if d == 3:
            return 2 * m.log(x) - 2 * F.digamma(1 - x) - 1 / x
        q = (d - 1) / 2
        return (2 * PI * F.gamma(q + x) / (F.gamma(q) ** 2 * F.gamma(1 - q + x) * x ** (d - 2))
                * (1 / m.tan(PI * (q - x)) - 1 / m.tan(PI * (d - 1))))
    z = e + 1j * gamma
    xi = lambda z: m.csqrt(R / (Eg - z))
    return (1 + a / (b - e ** 2)
            + A * R ** (d / 2 - 1) / z ** 2 * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0 * e))))


@harness("C17", n=60)
def tanguy(E):
    lb = axis(E)
    d = E.choose("d", [2, 3, 2.5, 1.5])
    p = {k: E.real(k, *r) for k, r in {"A": (0.1, 10.0), "gamma": (0.01, 0.5), "R": (0.01, 0.2), "Eg": (1.0, 6.0),
                                      "a": (0.0, 5.0), "b": (200.0, 300.0)}.items()}
    got = D.Tanguy(d=d, **p).dielectric_function(lb)
    E.eq("tanguy", got, tanguy_value(E.m, Fn(E), energy(lb), d=d, **p), rtol=1e-8)


@harness("C17", n=30, sym=False)
def tanguy_limits(E):
    """the formulas of two and three dimensions are the limits of the one of any dimension"""
    lb = E.rarray("lbda", (E.dim("N"),), 200.0, 5000.0, axis=True)
    p = {k: E.real(k, *r) for k, r in {"A": (0.1, 10.0), "gamma": (0.02, 0.5), "R": (0.02, 0.2), "Eg": (1.0, 6.0)}.items()}
    for d, k in ((2, np.pi), (3, 1)):
        # (the amplitude of two dimensions is counted in units of 1/pi)
        a, b = (D.Tanguy(d=x, **p).dielectric_function(lb) - 1 for x in (d, d - 1e-7))
        E.eq(f"limit {d}", a, k * b, rtol=1e-3, scale=float(np.max(np.abs(a))))


@harness("C17", n=30, sym=False)
def kramers_kronig(E):
    """the real parts of the oscillators belong to their imaginary parts (numerical integral, an independent oracle)"""
    import scipy.integrate as si
    kind = E.choose("model", ["tauc", "gauss", "lorentz"])
    A, E0, C = E.real("A", 1.0, 50.0), E.real("E", 2.5, 6.0), E.real("C", 0.5, 2.0)
    Eg = E.real("Eg", 0.8, 2.0)
    e = E.real("e", 2.2, 4.0)
    lb = energy(np.array([e]))
    if kind == "tauc":
        d, base = D.TaucLorentz(Eg).add(A, E0, C), 0
    elif kind == "gauss":
        d, base = D.Gaussian().add(A, E0, C), 0
    else:
        d, base = D.LorentzEnergy().add(A, E0, C), 1
    im = lambda x: float(d.dielectric_function(energy(np.array([x])))[0].imag)
    f = lambda x: 2 / np.pi * x * im(x) / (x + e)
    a, b = (Eg if kind == "tauc" else 1e-4), 2 * e
    near = si.quad(f, e - 0.5, e + 0.5, weight="cauchy", wvar=e)[0]
    rest = si.quad(lambda x: f(x) / (x - e), a, e - 0.5, limit=400)[0] + si.quad(
        lambda x: f(x) / (x - e), e + 0.5, 60, limit=400)[0] + si.quad(lambda x: f(x) / (x - e), 60, 20000, limit=400)[0]
    got = float(d.dielectric_function(lb)[0].real)
    E.eq("real part from the imaginary part", got - base, near + rest, rtol=1e-3, scale=max(1.0, A * C / E0 ** 2))


# ------------------------------------------------------------------------------------------------ current parameters
ANY = {
    "Cauchy": (("n0", "n1", "k1"), ()), "CauchyCustomExponent": (("n0",), ("f", "e")), "CauchyUrbach": (("n0", "D"), ()),
    "ConstantRefractiveIndex": (("n",), ()), "DrudeEnergy": (("A", "gamma"), ()), "DrudeResistivity": (("rho_opt", "tau"), ()),
    "EpsilonInf": (("eps",), ()), "Gaussian": ((), ("A", "E", "sigma")), "LorentzEnergy": ((), ("A", "E", "gamma")),
    "LorentzLambda": ((), ("A", "lambda_r", "gamma")), "Poles": (("A_ir", "A_uv"), ()), "Polynomial": (("e0",), ("f", "e")),
    "Sellmeier": ((), ("A",)), "SellmeierCustomExponent": ((), ("A", "e_A")), "Tanguy": (("A", "gamma"), ()),
    "TaucLorentz": (("Eg",), ("A", "E")), "CodyLorentz": (("A", "Eg"), ()),
}


@harness("C17", n=120, bounded="models with up to two added sets", maxpaths=400)
def current_parameters(E):
    """the value is the one of the parameters and wavelengths of now, whatever was evaluated before"""
    name = E.choose("model", list(ANY))
    if E.sym and name == "CodyLorentz":
        return        # its grid of a thousand wavelengths is too large here; evaluated on samples
    cls, (single_, rep) = getattr(D, name), ANY[name]
    lb = 1.0 * E.rarray("lbda", (E.dim("N"),), 100.0, 9000.0, axis=True)
    v = lambda tag: {k: E.real(f"{tag}.{k}", 1.1, 1.9) for k in single_}
    r = lambda tag: {k: E.real(f"{tag}.{k}", 2.1, 2.9) for k in rep}
    how = E.choose("changed", ["parameters", "sets", "wavelengths", "added"])
    a, b, s1, s2, s3 = v("a"), v("b"), r("s1"), r("s2"), r("s3")
    d = cls(**a)
    f = lambda d, l: d.refractive_index(l) if isinstance(d, elli.dispersions.base_dispersion.IndexDispersion) else d.dielectric_function(l)
    if rep:
        d.add(**s1)
        d.add(**s2)
    old = f(d, lb)
    d.get_dielectric(lb), d.get_refractive_index(lb)
    sets = [s1, s2]
    if how == "parameters":
        for k in single_:
            d.single_params[k] = b[k]
        a = b
    elif how == "sets":
        for k in rep:
            d.rep_params[1][k] = s3[k]
        sets = [s1, s3]
    elif how == "added" and rep:
        d.add(**s3)
        sets = [s1, s2, s3]
    else:
        lb[...] = lb * 1.1 + 5
    w = cls(**a)
    for s in sets if rep else []:
        w.add(**s)
    E.eq("value", f(d, lb) + 0 * lb, f(w, lb) + 0 * lb, rtol=1e-12)
    E.eq("get_dielectric", d.get_dielectric(lb) + 0 * lb, w.get_dielectric(lb) + 0 * lb, rtol=1e-12)
    E.eq("get_refractive_index", d.get_refractive_index(lb) + 0 * lb, w.get_refractive_index(lb) + 0 * lb, rtol=1e-12)
