"""C22 conversions of psi/delta data"""
import math

import numpy as np
import pandas as pd

import elli
from elli.result import Result
from elli.solver2x2 import Solver2x2
from elli.utils import calc_rho, calc_pseudo_diel, convert_delta_range, convert_psi_delta_to_isotropic_mueller_matrix
from .. import frame
from ..engine import harness
from ..sym import SymArray
from .c05 import AnyDispersion
from .common import EPS

DATA = "data sets of at most three wavelengths and two angles; any values"
PI = math.pi
COLS = [f"M{i}{j}" for i in (1, 2, 3, 4) for j in (1, 2, 3, 4)]


def rho_of(m, psi, delta):
    return m.tan(psi * PI / 180) * m.exp(-1j * delta * PI / 180)


def column(vals):
    """a pandas column of arbitrary numbers"""
    if vals and isinstance(vals[0], (int, float, complex, np.number)):
        return np.array(vals)
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    return out


def listed(s):
    return list(s.to_numpy()) if hasattr(s, "to_numpy") else list(s)


def psi_delta(E, n, tag=""):
    psi = [E.real(f"psi{tag}{i}", 0.0, 89.0, special=(0.0, 45.0)) for i in range(n)]
    delta = [E.real(f"delta{tag}{i}", -360.0, 360.0, special=(0.0, 180.0, -90.0)) for i in range(n)]
    return psi, delta


@harness("C22", n=80, bounded=DATA)
def rho(E):
    m = E.m
    n = E.choose("rows", [1, 2, 3])
    psi, delta = psi_delta(E, n)
    lb = [500.0, 400.0, 777.5][:n]
    kind = E.choose("index", ["wavelength", "angle and wavelength"])
    ix = pd.Index(lb, name="Wavelength") if kind == "wavelength" else \
        pd.MultiIndex.from_tuples([(60 + 5 * i, v) for i, v in enumerate(lb)], names=["Angle of Incidence", "Wavelength"])
    cols = {"Ψ": column(psi), "Δ": column(delta)}
    if E.choose("columns", ["psi first", "delta first"]) == "delta first":
        cols = dict(reversed(cols.items()))
    df = pd.DataFrame(cols, index=ix)
    keep = df.copy(deep=True)
    r = calc_rho(df)
    E.true("rows", list(r.index) == list(ix) and len(r) == n)
    for i, v in enumerate(listed(r)):
        E.eq("tan(psi) exp(-i delta)", v, rho_of(m, psi[i], delta[i]), rtol=1e-9)
    E.true("data unchanged", all(a is b or a == b for c in ("Ψ", "Δ") for a, b in zip(df[c], keep[c])))


@harness("C22", n=60)
def rho_of_tables(E):
    """tables of any number of rows"""
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    psi = E.rarray("psi", (d,), 0.0, 89.0, special=(0.0, 45.0))
    delta = E.rarray("delta", (d,), -360.0, 360.0, special=(0.0, 180.0, -90.0))
    order = E.choose("columns", ["psi first", "delta first", "and another"])
    cols = {"psi first": {"Ψ": psi, "Δ": delta}, "delta first": {"Δ": delta, "Ψ": psi},
            "and another": {"error": delta, "Ψ": psi, "Δ": delta}}[order]
    df = frame.table(E, cols, lb)
    r = calc_rho(df)
    E.eq("tan(psi) exp(-i delta)", r.to_numpy(), rho_of(m, psi, delta), rtol=1e-9)
    E.true("rows", r.index is df.index if E.sym else r.index.equals(df.index))
    E.eq("data unchanged", frame.column(df, "Ψ") + 1j * frame.column(df, "Δ"), psi + 1j * delta)


@harness("C22", n=60)
def formats_of_tables(E):
    """all output formats, tables of any number of rows"""
    m = E.m
    d = E.dim("N")
    th = E.real("angle", 1.0, 89.0, special=(45.0, 60.0, 70.0))
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    r = E.carray("rho", (d,), (-3.0, 3.0), (-3.0, 3.0), special=(0.5, 1j, -0.3))
    E.assume(m.all(m.abs(1 + r) > 1e-2))
    s = frame.series(E, r, lb)
    t = th * PI / 180
    want = m.sin(t) ** 2 * (1 + m.tan(t) ** 2 * ((1 - r) / (1 + r)) ** 2)
    e = calc_pseudo_diel(s, th, "epsi")
    d0 = calc_pseudo_diel(s, th)
    d2 = calc_pseudo_diel(s, th, "eps")
    k = calc_pseudo_diel(s, th, output="n")
    E.true("wavelengths", all(x.index is s.index if E.sym else x.index.equals(s.index) for x in (e, d0, d2, k)))
    E.true("columns", list(d0.columns) == ["ϵ1", "ϵ2"] and list(d2.columns) == ["ϵ1", "ϵ2"] and list(k.columns) == ["n", "k"])
    E.eq("complex number", e.to_numpy(), want, rtol=1e-9)
    for x in (d0, d2):
        E.eq("two columns: first", frame.column(x, "ϵ1"), m.real(want), rtol=1e-9, scale=1)
        E.eq("two columns: second", frame.column(x, "ϵ2"), m.imag(want), rtol=1e-9, scale=1)
    n = frame.column(k, "n") + 1j * frame.column(k, "k")
    E.eq("index", n * n, want, rtol=1e-9, scale=1)
    E.true("index has a real part that is not negative", m.all(frame.column(k, "n") >= 0))
    E.eq("index: real and imaginary part", m.real(n) - frame.column(k, "n") + 1j * (m.imag(n) - frame.column(k, "k")), 0 * r)
    E.eq("data unchanged", s.to_numpy(), r)


def given_rho(E, n):
    return [E.cplx(f"rho{i}", (-3.0, 3.0), (-3.0, 3.0), special=(0.5, 1j, -0.3)) for i in range(n)]


@harness("C22", n=80, bounded=DATA)
def formats(E):
    """all output formats show the same pseudo-dielectric function, row by row"""
    m = E.m
    n = E.choose("rows", [1, 2, 3])
    th = E.real("angle", 1.0, 89.0, special=(45.0, 60.0, 70.0))
    rho = given_rho(E, n)
    for r in rho:
        E.assume(m.abs(1 + r) > 1e-2)
    lb = [500.0, 400.0, 777.5][:n]
    s = pd.Series(column(rho), index=pd.Index(lb, name="Wavelength"))
    t = th * PI / 180
    want = [m.sin(t) ** 2 * (1 + m.tan(t) ** 2 * ((1 - r) / (1 + r)) ** 2) for r in rho]
    e = calc_pseudo_diel(s, th, "epsi")
    d = calc_pseudo_diel(s, th)
    d2 = calc_pseudo_diel(s, th, "eps")
    k = calc_pseudo_diel(s, th, output="n")
    E.true("wavelengths", all(list(x.index) == lb for x in (e, d, d2, k)))
    E.true("columns", list(d.columns) == ["ϵ1", "ϵ2"] and list(k.columns) == ["n", "k"])
    for i in range(n):
        E.eq("complex number", listed(e)[i], want[i], rtol=1e-9)
        E.eq("two columns", listed(d["ϵ1"])[i] + 1j * listed(d["ϵ2"])[i], want[i], rtol=1e-9)
        E.eq("default format", listed(d2["ϵ1"])[i] + 1j * listed(d2["ϵ2"])[i], want[i], rtol=1e-9)
        n_ = listed(k["n"])[i] + 1j * listed(k["k"])[i]
        E.eq("index", n_ * n_, want[i], rtol=1e-9)
        E.true("index has a real part that is not negative", listed(k["n"])[i] >= 0)
        if not E.sym:
            E.true("real columns", all(np.isrealobj(c) for c in (d["ϵ1"], d["ϵ2"], k["n"], k["k"])))


@harness("C22", n=80, trusted=["the sign of the square root: Re sqrt(z) >= 0 (numpy.lib.scimath.sqrt)"])
def bulk(E):
    """the pseudo-dielectric function of the rho a bulk sample produces is the sample's"""
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)
    th = E.real("angle", 1.0, 89.0, special=(45.0, 60.0, 70.0))
    eps = AnyDispersion(E, "bulk")
    e = eps.get_dielectric(lb)
    E.assume(m.all(m.abs(e) > 1e-2))
    E.assume(m.all(m.abs(e - m.sin(th * PI / 180) ** 2) > 1e-2))
    E.assume(m.all(m.abs(e - 1) > 1e-2))
    res = elli.Structure(elli.AIR, [], elli.IsotropicMaterial(eps)).evaluate(lb, th, solver=Solver2x2)
    rho = res.rho
    t = th * PI / 180
    s = frame.series(E, rho, lb)
    E.eq("permittivity", calc_pseudo_diel(s, th, "epsi").to_numpy(), e, rtol=1e-6)
    if not E.sym:
        df = calc_pseudo_diel(calc_rho(pd.DataFrame({"Ψ": res.psi, "Δ": res.delta}, index=lb)), th)
        E.eq("through psi and delta", df["ϵ1"].to_numpy() + 1j * df["ϵ2"].to_numpy(), e, rtol=1e-6)
        kn = calc_pseudo_diel(s, th, "n")
        E.eq("index", kn["n"].to_numpy() + 1j * kn["k"].to_numpy(), eps.get_refractive_index(lb), rtol=1e-6)
        if len(lb) > 3 and len(set(lb)) == len(lb):
            p = elli.PseudoDielectricFunction(angle=th, lbda=lb, psi=res.psi, delta=res.delta)
            E.eq("as a dispersion", p.get_dielectric(lb), e, rtol=1e-6)


@harness("C22", n=60, bounded="tables of four points", maxpaths=2000)
def pseudo_dispersion(E):
    """PseudoDielectricFunction holds the same pseudo-dielectric function at the measured wavelengths"""
    m = E.m
    th = E.real("angle", 1.0, 89.0, special=(45.0, 60.0, 70.0))
    psi, delta = psi_delta(E, 4)
    lb = np.array([400.0, 500.0, 600.0, 750.0])
    if E.choose("order", ["ascending", "other"]) == "other":
        lb = lb[[2, 0, 3, 1]]
    rho = [rho_of(m, p, q) for p, q in zip(psi, delta)]
    for r in rho:
        E.assume(m.abs(1 + r) > 1e-2)
    p, q = (m.array(psi), m.array(delta)) if E.choose("container", ["array", "series"]) == "array" or E.sym else \
        (pd.Series(psi, index=lb), pd.Series(delta, index=lb))
    f = elli.PseudoDielectricFunction(th, lb, p, q)
    t = th * PI / 180
    got = f.dielectric_function(lb if not E.sym else m.array(list(lb)))
    for i in range(4):
        E.eq("pseudo-dielectric function", got[i], m.sin(t) ** 2 * (1 + m.tan(t) ** 2 * ((1 - rho[i]) / (1 + rho[i])) ** 2), rtol=1e-7)


# ------------------------------------------------------------------------------------------------ delta ranges
RANGES = [(-180, 180), (0, 360), (-360, 0), (-90, 270), (-270, 90), (-1, 359), (0, 180), (-359, 1)]


@harness("C22", n=100, maxpaths=400)
def shifting(E):
    m = E.m
    lo, up = E.choose("range", RANGES)
    how = E.choose("values", ["array", "scalar"])
    x = E.rarray("delta", (E.dim("N"),), -720.0, 720.0, special=(0.0, 180.0, -180.0, 360.0)) if how == "array" else \
        E.real("delta", -720.0, 720.0, special=(0.0, 180.0, -180.0, 360.0))
    y = convert_delta_range(x, lo, up)
    k = (y - x) / 360
    E.true("by multiples of 360 degrees", m.all(m.abs(k - m.round(k)) < 1e-9) if not E.sym else m.all(m.floor(k) == k))
    E.true("into the range", m.all(m.logical_and(y >= lo - 1e-9, y < lo + 360 + 1e-9)))
    if how == "array":
        s = frame.series(E, x, 1.0 * x)
        z = convert_delta_range(s, lo, up)
        E.eq("in a column", z.to_numpy(), y)
        E.true("rows of the column", z.index is s.index if E.sym else z.index.equals(s.index))
        f = frame.table(E, {"Ψ": x, "Δ": x}, 1.0 * x)
        z = convert_delta_range(f[["Δ"]], lo, up)
        E.eq("in a table", frame.column(z, "Δ"), y)
        E.true("rows and columns of the table", list(z.columns) == ["Δ"] and (z.index is f.index if E.sym else z.index.equals(f.index)))
        E.eq("data unchanged", frame.column(f, "Δ"), x)


@harness("C22", n=60)
def any_range(E):
    """every integer lower bound"""
    m = E.m
    lo = E.choose("lower", list(range(-360, 1))) if not E.sym else E.integer("lower", -360, 0)
    x = E.real("delta", -720.0, 720.0)
    y = convert_delta_range(x, lo, lo + 360)
    k = (y - x) / 360
    E.true("by multiples of 360 degrees", abs(k - round(k)) < 1e-9 if not E.sym else m.floor(k) == k)
    E.true("into the range", m.logical_and(y >= lo - 1e-9, y < lo + 360 + 1e-9))


BAD = [(0, 90), (-180, 0), (-90, 90), (10, 370), (-370, -10), (-361, -1), (1, 361), (0, 0), (-200, 180), (180, -180), (360, 0)]


@harness("C22", n=30)
def invalid_ranges(E):
    lo, up = E.choose("range", BAD)
    E.raises("invalid range", ValueError, lambda: convert_delta_range(E.real("delta", -10.0, 10.0), lo, up))
    lo, up = E.choose("not integers", [(-180.0, 180), (-180, 180.0), ("0", 360), (None, 360), (0.5, 360.5)])
    E.raises("not integers", TypeError, lambda: convert_delta_range(1.0, lo, up))


# ------------------------------------------------------------------------------------------------ Mueller matrices
def measurement(E, na, nw, order):
    """psi/delta table over a grid of angles and wavelengths, rows in the given order"""
    aois, lbs = [70, 50][:na], [500.0, 400.0, 600.0][:nw]
    keys = [(a, w) for a in aois for w in lbs]
    psi, delta = psi_delta(E, len(keys))
    rows = list(range(len(keys)))
    if order == "by wavelength":
        rows = sorted(rows, key=lambda i: keys[i][1])
    elif order == "reversed":
        rows = rows[::-1]
    elif order == "each angle its own":
        # forwards at the first angle, backwards at the second
        rows = rows[:nw] + rows[nw:][::-1]
    ix = pd.MultiIndex.from_tuples([keys[i] for i in rows], names=["Angle of Incidence", "Wavelength"])
    df = pd.DataFrame({"Ψ": column([psi[i] for i in rows]), "Δ": column([delta[i] for i in rows])}, index=ix)
    return df, keys, psi, delta


@harness("C22", n=60, bounded=DATA, maxpaths=400, weight=2)
def mueller(E):
    """the converted Mueller matrix is the one a Result with these angles has"""
    m = E.m
    na, nw = E.choose("grid", [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)])
    order = E.choose("rows", ["in order", "by wavelength", "reversed", "each angle its own"])
    df, keys, psi, delta = measurement(E, na, nw, order)
    before = [listed(df[c]) for c in df.columns]
    M = convert_psi_delta_to_isotropic_mueller_matrix(df)
    E.true("columns", list(M.columns) == COLS)
    E.true("rows", sorted(M.index) == sorted(keys) and list(M.index.names) == ["Angle of Incidence", "Wavelength"])
    ex = elli.Experiment(elli.Structure(elli.AIR, [], elli.AIR), np.array([500.0]), 60.0)
    for k, key in enumerate(keys):
        t, a = psi[k] * PI / 180, delta[k] * PI / 180
        # a reflection with rp/rs = tan(psi) exp(-i delta)
        rs, rp = m.cos(t), m.sin(t) * m.exp(-1j * a)
        J = m.array([[[rp, 0 * rp], [0 * rp, rs + 0 * rp]]])
        R = Result(ex, J, J)
        want = R.mueller_matrix
        for i in range(4):
            for j in range(4):
                E.eq(f"M{i + 1}{j + 1}", M.loc[key, f"M{i + 1}{j + 1}"], want[0, i, j], rtol=1e-9, scale=1)
    E.true("data unchanged", all(x is y or x == y for c, b in zip(df.columns, before) for x, y in zip(listed(df[c]), b)))


@harness("C22", n=40, sym=False)
def measured_results(E):
    """round trip of the solver's own psi and delta"""
    th = E.real("angle", 20.0, 80.0)
    lb = np.linspace(300.0, 900.0, E.choose("wavelengths", [2, 4, 9]))
    s = elli.Structure(elli.AIR, [elli.Layer(elli.IsotropicMaterial(AnyDispersion(E, "film")), E.real("d", 1.0, 300.0))],
                       elli.IsotropicMaterial(AnyDispersion(E, "bulk")))
    r = s.evaluate(lb, th, solver=Solver2x2)
    ix = pd.MultiIndex.from_product([[th], lb], names=["Angle of Incidence", "Wavelength"])
    df = pd.DataFrame({"Ψ": r.psi, "Δ": r.delta}, index=ix)
    E.eq("rho", calc_rho(df).to_numpy(), r.rho, rtol=1e-6)
    lo, up = E.choose("range", RANGES[:4])
    df["Δ"] = convert_delta_range(df["Δ"], lo, up)
    E.eq("rho after shifting", calc_rho(df).to_numpy(), r.rho, rtol=1e-6)
    M = convert_psi_delta_to_isotropic_mueller_matrix(df)
    E.eq("Mueller matrix", M.to_numpy(dtype=float).reshape(-1, 4, 4), r.mueller_matrix, rtol=1e-6, scale=1)
