"""C27 fit residuals, and the model data the fit classes show and hand out

The real constructors and methods are executed for data tables with an arbitrary number of rows.  The user's model is a function
of the wavelengths and parameters whose psi, delta and Mueller matrix are arbitrary arrays depending on the parameters; every
call is recorded.  The minimiser is replaced by its contract: it evaluates the residual function at parameter values of its
choosing and returns some of them."""
import copy
import math
import os
import sys
import tempfile
import types
from contextlib import contextmanager

import numpy as np
import pandas as pd

import lmfit.minimizer
from elli.fitting.decorator_mmatrix import FitMuellerMatrix
from elli.fitting.decorator_psi_delta import FitRho
from elli.fitting.params_hist import ParamsHist
from elli import fitting
from lmfit import Parameters
from .. import frame
from ..engine import harness
from ..shims import Joined

PI = math.pi
TRUST = ["lmfit's minimiser calls the residual function with parameter sets of its own and the arguments given, and returns a "
         "result that holds a parameter set", "the model is used only by calling it"]


class Asked:
    """what was asked of the minimiser"""


@contextmanager
def minimiser(E, at, found):
    """lmfit's Minimizer evaluates the residual with the values `at` and ends with the values `found`"""
    seen = []
    real = lmfit.minimizer.Minimizer.minimize

    def minimize(self, method="leastsq", params=None, **kws):
        a = Asked()
        a.start = values(params if params is not None else self.params)
        a.method, a.kws = method, kws
        p = copy.deepcopy(self.params)
        for k, v in at.items():
            p[k].value = v
        a.residual = self.userfcn(p, *self.userargs, **self.userkws)
        a.unchanged = values(self.params)
        q = copy.deepcopy(self.params)
        for k, v in found.items():
            q[k].value = v
        a.result = types.SimpleNamespace(params=q, method=method)
        seen.append(a)
        return a.result
    lmfit.minimizer.Minimizer.minimize = minimize
    try:
        yield seen
    finally:
        lmfit.minimizer.Minimizer.minimize = real


def values(p):
    return {k: v.value for k, v in p.items()}


def point(E, tag):
    return {"a": E.real("a" + tag, -1.0, 1.0), "b": E.real("b" + tag, 0.0, 1.0)}


def parameters(E, tag, cls):
    v = point(E, tag)
    p = cls()
    p.add("a", value=v["a"])
    p.add("b", value=v["b"], min=0.0, max=1.0, vary=False)
    return p


class World:
    """a measurement and a model"""

    def __init__(self, E, mueller=False, history=None):
        self.E, self.calls = E, []
        self.d = E.dim("N")
        self.lb = E.rarray("lbda", (self.d,), 150.0, 3000.0, axis=True)
        self.cls = E.choose("parameters", [ParamsHist, Parameters]) if history is None else history
        self.params = parameters(E, " start", self.cls)
        n = (16,) if mueller else ()
        self.names = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)] if mueller else ["Ψ", "Δ"]
        if mueller:
            self.data = E.rarray("measured", (self.d, 16), -1.0, 1.0)
            self.parts = [E.rarray(f"model {i}", (self.d, 16), -1.0, 1.0) for i in range(3)]
            cols = {c: self.data[:, i] for i, c in enumerate(self.names)}
        else:
            self.psi, self.delta = E.rarray("psi", (self.d,), 1.0, 89.9, special=(45.0, 89.9)), E.rarray("delta", (self.d,), -180.0, 180.0)
            self.parts = [(E.rarray(f"model psi {i}", (self.d,), *r), E.rarray(f"model delta {i}", (self.d,), -90.0, 90.0))
                          for i, r in enumerate([(10.0, 30.0), (0.0, 5.0), (0.0, 5.0)])]
            cols = {"Ψ": self.psi, "Δ": self.delta}
            if E.choose("columns", ["psi first", "delta first"]) == "delta first":
                cols = dict(reversed(cols.items()))
        self.table = frame.table(E, cols, self.lb)
        self.cols = cols
        self.mueller = mueller

    def at(self, v):
        """what the model says for parameter values v"""
        m = self.E.m
        a, b = v["a"], v["b"]
        if self.mueller:
            return self.parts[0] + a * self.parts[1] + b * self.parts[2]
        psi, delta = (self.parts[0][i] + a * self.parts[1][i] + b * self.parts[2][i] for i in (0, 1))
        r = types.SimpleNamespace(psi=psi, delta=delta)
        r.rho = m.tan(psi * PI / 180) * m.exp(-1j * delta * PI / 180)
        return r

    def model(self, lbda, params):
        """the user's function"""
        E = self.E
        given = frame.array(lbda) if E.sym else np.asarray(lbda)
        self.calls.append((given, values(params)))
        r = self.at(values(params))
        if self.mueller:
            r = types.SimpleNamespace(mueller_matrix=r.reshape(-1, 4, 4))
        return r

    def clear(self):
        self.calls = []

    def called(self, label, v):
        """every call since `clear` had the measured wavelengths and these values"""
        E = self.E
        E.true(label + ": the model is evaluated", len(self.calls) > 0)
        for lb, p in self.calls:
            E.eq(label + ": at the measured wavelengths", lb + 0 * self.lb, self.lb)
            same(E, label + ": with these parameters", p, v)

    def rho(self):
        m = self.E.m
        return m.tan(self.psi * PI / 180) * m.exp(-1j * self.delta * PI / 180)

    def unchanged(self):
        E = self.E
        for c, v in self.cols.items():
            E.eq("measured data unchanged", frame.column(self.table, c), v)

    def rows(self, label, t):
        self.E.true(label + ": rows", t.index is self.table.index if self.E.sym else t.index.equals(self.table.index))


def same(E, label, v, w):
    E.true(label + ": names", list(v) == list(w))
    for k in w:
        E.eq(label, v[k], w[k])


def put(p, v):
    for k, x in v.items():
        p[k].value = x


def pieces(E, r, d):
    """the parts of a residual of real numbers, in either world"""
    if E.sym:
        E.true("residual of two parts", isinstance(r, Joined) and len(r.pieces) == 2)
        return list(r.pieces) if isinstance(r, Joined) else [r, r]
    r = np.asarray(r)
    n = len(r) // 2
    return [r[:n], r[n:]]


@harness("C27", n=24, trusted=TRUST)
def psi_delta_fit(E):
    """FitRho.fit"""
    m = E.m
    w = World(E)
    start = values(w.params)
    f = FitRho(w.table, w.params, w.model, angle=65.0) if E.choose("made by", ["class", "decorator"]) == "class" else \
        fitting.fit(w.table, w.params, angle=65.0)(w.model)
    w.called("constructor", start)
    same(E, "fitted parameters start as given", values(f.fitted_params), start)
    same(E, "constructor leaves the parameters", values(f.params), start)
    now = start
    if E.choose("then", ["fit", "change and fit"]) == "change and fit":
        now = point(E, " now")
        put(f.params, now)
    w.clear()
    at, found = point(E, " tried"), point(E, " found")
    how = E.choose("method", [None, "nelder"])
    with minimiser(E, at, found) as seen:
        res = f.fit() if how is None else f.fit(how) if E.choose("passed", ["plain", "named"]) == "plain" else f.fit(method=how)
    E.true("one minimisation", len(seen) == 1)
    a = seen[0]
    same(E, "starts at the current parameters", a.start, now)
    E.true("method", a.method == (how or "leastsq"))
    w.called("residual", at)
    diff = w.rho() - w.at(at).rho
    got = pieces(E, a.residual, w.d)
    E.eq("residual: real part of rho", got[0], m.real(diff), rtol=1e-9, scale=1)
    E.eq("residual: imaginary part of rho", got[1], m.imag(diff), rtol=1e-9, scale=1)
    E.true("result returned", res is a.result)
    same(E, "fitted parameters", values(f.fitted_params), found)
    same(E, "parameters after the fit", values(f.params), now)
    w.unchanged()


@harness("C27", n=60, trusted=TRUST)
def psi_delta_data(E):
    """FitRho.get_model_data"""
    m = E.m
    w = World(E, history=ParamsHist)
    f = FitRho(w.table, w.params, w.model)
    now, fitted = point(E, " now"), point(E, " fitted")
    put(f.params, now)
    case = E.choose("parameter set", ["as made", "fitted", "given", "given after a fit", "as made after a fit", "current after a fit"])
    if case == "fitted" or case.endswith("a fit"):
        with minimiser(E, now, fitted):
            f.fit()
    w.clear()
    want, tag, args = fitted, "fit", ()
    if case == "as made":
        want = {k: v for k, v in point(E, " start").items()}
    if case.startswith("given") or case == "as made after a fit":
        which = " given" if case.startswith("given") else " start"
        want, tag = point(E, which), "model"
        q = parameters(E, which, Parameters)
        args = (q,)
    if case.startswith("current"):
        want, tag, args = now, "model", (f.params,)
    kind = E.choose("representation", [None, "psi-delta", "rho"])
    append = E.choose("with measurement", [False, True])
    kw = {} if kind is None else {"repr": kind}
    if append or E.choose("said", [True, False]):
        kw["append_exp_data"] = append
    if args and E.choose("passed", ["plain", "named"]) == "named":
        kw["params"], args = args[0], ()
    t = f.get_model_data(*args, **kw)
    w.called("model data", want)
    r = w.at(want)
    w.rows("model data", t)
    if kind == "rho":
        own, meas = {f"ρ_{tag}": r.rho}, None
    else:
        own, meas = {f"Ψ_{tag}": r.psi, f"Δ_{tag}": r.delta}, w.cols
    names = list(t.columns)
    E.true("columns", names[-len(own):] == list(own) and len(names) == len(own) + (0 if not append else 1 if kind == "rho" else 2))
    for c, v in own.items():
        E.eq("model: " + c.split("_")[0], frame.column(t, c), v, rtol=1e-9, scale=1)
    if append and meas is not None:
        E.true("measured columns", names[:2] == list(w.cols))
        for c, v in meas.items():
            E.eq("measured: " + c, frame.column(t, c), v)
    elif append:
        E.eq("measured: rho", frame.column(t, names[0]), w.rho(), rtol=1e-9, scale=1)
    same(E, "parameters unchanged", values(f.params), now)
    w.unchanged()
    E.raises("unknown representation", ValueError, lambda: f.get_model_data(repr="psi"))


def shown(E, t):
    """the values of a trace"""
    y = t.y
    return frame.array(y) if E.sym else np.asarray(y, dtype=float)


def drawn(E, label, fig, i, want, of=0):
    """trace i shows these values; `of`: the table it comes from when tables are set below one another"""
    y = fig.data[i].y
    if E.sym:
        if isinstance(y, frame.Pieces):
            own = [p for p in y.parts if p is not None]
            E.true(label + ": once", len(own) == 1)
            y = own[0]
        E.eq(label, frame.array(y) + 0 * want, want)
    else:
        y = np.asarray(y, dtype=float)
        y = y[~np.isnan(y)] if len(y) != len(want) else y
        E.true(label + ": points", len(y) == len(want))
        if len(y) == len(want):
            E.eq(label, y, want, rtol=1e-9, scale=1)


@harness("C27", n=40, trusted=TRUST)
def psi_delta_displays(E):
    """what the selected display shows: measurement and model with the current parameters, or their difference"""
    m = E.m
    w = World(E, history=ParamsHist)
    th = E.real("angle", 40.0, 80.0)
    f = FitRho(w.table, w.params, w.model, th)
    first = w.at(values(w.params))
    for i, c in enumerate(w.cols):
        drawn(E, "first display: measurement", f.fig, i, w.cols[c])
    drawn(E, "first display: model psi", f.fig, 2, first.psi)
    drawn(E, "first display: model delta", f.fig, 3, first.delta)
    now = point(E, " now")
    put(f.params, now)
    w.clear()
    kind = E.choose("display", ["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"])
    f.update_selection(types.SimpleNamespace(new=kind))
    w.called(kind, now)
    r, e = w.at(now), w.rho()
    t = th * PI / 180

    def pseudo(x):
        return m.sin(t) ** 2 * (1 + m.tan(t) ** 2 * ((1 - x) / (1 + x)) ** 2)
    if kind == "Psi/Delta":
        want = [w.psi, w.delta, r.psi, r.delta]
    elif kind == "Rho":
        want = [m.real(e), m.imag(e), m.real(r.rho), m.imag(r.rho)]
    elif kind == "Pseudo Diel.":
        E.assume(m.all(m.abs(1 + e) > 1e-2))
        E.assume(m.all(m.abs(1 + r.rho) > 1e-2))
        want = [m.real(pseudo(e)), m.imag(pseudo(e)), m.real(pseudo(r.rho)), m.imag(pseudo(r.rho))]
    else:
        want = [w.psi - r.psi, w.delta - r.delta, m.real(e - r.rho), m.imag(e - r.rho)]
    E.true("traces", len(f.fig.data) == 4)
    for i in range(4):
        drawn(E, f"{kind} {i}", f.fig, i, want[i])
    same(E, "parameters unchanged", values(f.params), now)
    w.unchanged()


@harness("C27", n=30, trusted=TRUST)
def psi_delta_plots(E):
    """plot and plot_rho: the measurement and the model with the fitted parameters"""
    m = E.m
    w = World(E, history=ParamsHist)
    f = FitRho(w.table, w.params, w.model)
    fitted = point(E, " fitted")
    with minimiser(E, fitted, fitted):
        f.fit()
    w.clear()
    r = w.at(fitted)
    if E.choose("plot", ["psi and delta", "rho"]) == "rho":
        fig = f.plot_rho()
        e = w.rho()
        want = {"ρr": m.real(e), "ρi": m.imag(e), "ρcr": m.real(r.rho), "ρci": m.imag(r.rho)}
    else:
        fig = f.plot()
        want = {**w.cols, "Ψ_fit": r.psi, "Δ_fit": r.delta}
    w.called("plot", fitted)
    E.true("traces", [t.name for t in fig.data] == list(want))
    for i, v in enumerate(want.values()):
        drawn(E, f"trace {i}", fig, i, v)


# ------------------------------------------------------------------------------------------------ Mueller matrices
def mueller_fit_of(E, w, **kw):
    kw = {"display_single": False, "sharex": False, "full_scale": False, **kw}
    return FitMuellerMatrix(w.table, w.params, w.model, **kw) if E.choose("made by", ["class", "decorator"]) == "class" else \
        fitting.fit_mueller_matrix(w.table, w.params, **kw)(w.model)


@harness("C27", n=16, trusted=TRUST)
def mueller_fit(E):
    w = World(E, mueller=True)
    start = values(w.params)
    f = mueller_fit_of(E, w)
    w.called("constructor", start)
    same(E, "fitted parameters start as given", values(f.fitted_params), start)
    now = start
    if E.choose("then", ["fit", "change and fit"]) == "change and fit":
        now = point(E, " now")
        put(f.params, now)
    w.clear()
    at, found = point(E, " tried"), point(E, " found")
    how = E.choose("method", [None, "nelder"])
    with minimiser(E, at, found) as seen:
        res = f.fit() if how is None else f.fit(how)
    E.true("one minimisation", len(seen) == 1)
    a = seen[0]
    same(E, "starts at the current parameters", a.start, now)
    E.true("method", a.method == (how or "leastsq"))
    w.called("residual", at)
    E.eq("residual: every element", a.residual.reshape(-1, 16), w.data - w.at(at), rtol=1e-9, scale=1)
    E.true("result returned", res is a.result)
    same(E, "fitted parameters", values(f.fitted_params), found)
    same(E, "parameters after the fit", values(f.params), now)
    w.unchanged()


@harness("C27", n=36, trusted=TRUST)
def mueller_data(E):
    w = World(E, mueller=True, history=ParamsHist)
    f = mueller_fit_of(E, w)
    now, fitted = point(E, " now"), point(E, " fitted")
    put(f.params, now)
    case = E.choose("parameter set", ["as made", "fitted", "given", "given after a fit", "as made after a fit", "current after a fit"])
    if case == "fitted" or case.endswith("a fit"):
        with minimiser(E, now, fitted):
            f.fit()
    w.clear()
    want, tag, args = fitted, "fit", ()
    if case == "as made":
        want = point(E, " start")
    if case.startswith("given") or case == "as made after a fit":
        which = " given" if case.startswith("given") else " start"
        want, tag, args = point(E, which), "model", (parameters(E, which, Parameters),)
    if case.startswith("current"):
        want, tag, args = now, "model", (f.params,)
    append = E.choose("with measurement", [False, True])
    t = f.get_model_data(*args, append_exp_data=append) if append or E.choose("said", [True, False]) else f.get_model_data(*args)
    w.called("model data", want)
    w.rows("model data", t)
    E.true("columns", list(t.columns) == (w.names if append else []) + [f"{c}_{tag}" for c in w.names])
    r = w.at(want)
    for i, c in enumerate(w.names):
        E.eq("model: " + c, frame.column(t, f"{c}_{tag}"), r[:, i])
        if append:
            E.eq("measured: " + c, frame.column(t, c), w.data[:, i])
    w.unchanged()


@harness("C27", n=16, trusted=TRUST)
def mueller_displays(E):
    w = World(E, mueller=True, history=ParamsHist)
    single = E.choose("single", [True, False])
    f = FitMuellerMatrix(w.table, w.params, w.model, display_single=single, sharex=True, full_scale=True)
    r = w.at(values(w.params))
    E.true("traces", len(f.fig.data) == 32)
    for i, c in enumerate(w.names):
        drawn(E, f"first display: measured {c}", f.fig, 2 * i, w.data[:, i])
        drawn(E, f"first display: model {c}", f.fig, 2 * i + 1, r[:, i])
    now = point(E, " now")
    put(f.params, now)
    w.clear()
    what = E.choose("show", ["model", "residual", "residual and back"])
    if what == "model":
        f.update_selection()
    else:
        f.update_residual(types.SimpleNamespace(new=True))
        if what != "residual":
            f.update_residual(types.SimpleNamespace(new=False))
    w.called("display", now)
    r = w.at(now)
    for i, c in enumerate(w.names):
        drawn(E, f"measured {c}", f.fig, 2 * i, w.data[:, i])
        drawn(E, f"{what} {c}", f.fig, 2 * i + 1, r[:, i] - w.data[:, i] if what == "residual" else r[:, i])
    w.unchanged()


@harness("C27", n=16, trusted=TRUST)
def mueller_plots(E):
    w = World(E, mueller=True, history=ParamsHist)
    f = FitMuellerMatrix(w.table, w.params, w.model, display_single=False, sharex=False, full_scale=False)
    fitted = point(E, " fitted")
    with minimiser(E, fitted, fitted):
        f.fit()
    w.clear()
    r = w.at(fitted)
    if E.choose("plot", ["data", "residual"]) == "data":
        fig = f.plot() if E.choose("layout", ["own", "single"]) == "own" else f.plot(display_single=True)
        E.true("traces", len(fig.data) == 32)
        for i, c in enumerate(w.names):
            drawn(E, f"measured {c}", fig, 2 * i, w.data[:, i])
            drawn(E, f"model {c}", fig, 2 * i + 1, r[:, i])
    else:
        fig = f.plot_residual()
        E.true("traces", len(fig.data) == 16)
        for i, c in enumerate(w.names):
            drawn(E, f"difference {c}", fig, i, r[:, i] - w.data[:, i])
    w.called("plot", fitted)


# ------------------------------------------------------------------------------------------------ buttons
@harness("C27", n=24, trusted=TRUST)
def buttons(E):
    """the fit, undo, redo and reset buttons and the parameter boxes act on the current parameters"""
    mueller = E.choose("kind", ["psi/delta", "Mueller"]) == "Mueller"
    w = World(E, mueller=mueller, history=ParamsHist)
    f = FitMuellerMatrix(w.table, w.params, w.model, display_single=True, sharex=False, full_scale=False, method="nelder") if mueller else \
        FitRho(w.table, w.params, w.model, method="nelder")
    start = values(w.params)
    box = point(E, " typed")

    def typed(k):
        f.param_widgets[k].value = box[k]

    def boxes(label):
        same(E, label + ": boxes show the current values", {k: b.value for k, b in f.param_widgets.items()}, values(f.params))
    boxes("at first")
    typed("a")
    boxes("typed")
    now = {"a": box["a"], "b": start["b"]}
    same(E, "typed value", values(f.params), now)
    op = E.choose("button", ["undo", "undo and redo", "reset", "fit", "fit and change", "vary"])
    w.clear()

    def press(name):
        f.re_undo_button_clicked(types.SimpleNamespace(description=name))
    if op.startswith("undo"):
        press("Undo")
        same(E, "undo", values(f.params), start)
        w.called("undo: display", start)
        if op != "undo":
            w.clear()
            press("Redo")
            same(E, "redo", values(f.params), now)
            w.called("redo: display", now)
    elif op == "reset":
        f.reset_to_init_params()
        same(E, "reset", values(f.params), start)
        w.called("reset: display", start)
    elif op.startswith("fit"):
        found = point(E, " found")
        with minimiser(E, found, found) as seen:
            f.fit_button_clicked()
        E.true("method", len(seen) == 1 and seen[0].method == "nelder")
        same(E, "starts at the current parameters", seen[0].start, now)
        same(E, "fit: current parameters", values(f.params), found)
        same(E, "fit: fitted parameters", values(f.fitted_params), found)
        if op != "fit":
            typed("b")
            same(E, "then typed", values(f.params), {"a": found["a"], "b": box["b"]})
            same(E, "fitted parameters stay", values(f.fitted_params), found)
            w.clear()
            t = f.get_model_data()
            w.called("model data", found)
    else:
        f.set_vary_param(types.SimpleNamespace(owner=types.SimpleNamespace(description_tooltip="a"), new=False))
        E.true("varies", f.params["a"].vary is False and f.params["b"].vary is False)
        same(E, "values stay", values(f.params), now)
    boxes(op)


@harness("C27", n=24, sym=False)
def files(E):
    """to_csv writes the model data asked for"""
    mueller = E.choose("kind", ["psi/delta", "Mueller"]) == "Mueller"
    w = World(E, mueller=mueller, history=ParamsHist)
    f = FitMuellerMatrix(w.table, w.params, w.model, display_single=True, sharex=False, full_scale=False) if mueller else FitRho(w.table, w.params, w.model)
    q = E.choose("parameter set", [None, "given"])
    q = q and parameters(E, " given", Parameters)
    append = E.choose("with measurement", [False, True])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "model.csv")
        try:
            f.to_csv(fname=path, params=q, append_exp_data=append)
            t = pd.read_csv(path, index_col=0)
            f.to_csv(fname=path, params=q, append_exp_data=append, sep=";")
            t2 = pd.read_csv(path, index_col=0, sep=";")
        except Exception as ex:
            E.true(f"written", False)
            return
    want = f.get_model_data(q, append_exp_data=append)
    for x in (t, t2):
        E.true("columns", list(x.columns) == list(want.columns))
        E.eq("values", x.to_numpy(), want.to_numpy(), rtol=1e-12)
        E.eq("wavelengths", x.index.to_numpy(), w.lb, rtol=1e-12)


@harness("C27", n=10, sym=False)
def real_fits(E):
    """lmfit's own minimiser with a physical model finds parameters that reproduce the data"""
    import elli
    lb = np.linspace(400.0, 800.0, 21)
    d = E.real("d", 30.0, 120.0)
    mueller = E.choose("kind", ["psi/delta", "Mueller"]) == "Mueller"

    def model(lbda, p):
        s = elli.Structure(elli.AIR, [elli.Layer(elli.Cauchy(p["n"].value).get_mat(), p["d"].value)], elli.ConstantRefractiveIndex(3.8).get_mat())
        return s.evaluate(np.asarray(lbda, dtype=float), 70, solver=elli.Solver2x2)

    def ps(n, t):
        p = ParamsHist()
        p.add("n", value=n, vary=False)
        p.add("d", value=t, min=0)
        return p
    r = model(lb, ps(1.5, d))
    if mueller:
        t = pd.DataFrame(r.mueller_matrix.reshape(-1, 16), index=lb, columns=[f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)])
        f = FitMuellerMatrix(t, ps(1.5, d + 2), model, display_single=True, sharex=False, full_scale=False)
    else:
        t = pd.DataFrame({"Ψ": r.psi, "Δ": r.delta}, index=lb)
        f = FitRho(t, ps(1.5, d + 2), model)
    res = f.fit()
    E.eq("thickness", res.params["d"].value, d, rtol=1e-3)
    E.true("residual vanishes", float(np.max(np.abs(res.residual))) < 1e-4)
    E.true("number of residuals", res.ndata == (16 if mueller else 2) * len(lb))
