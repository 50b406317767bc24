"""C06 frame conditions of an evaluation, and independence of its result

The contract of Experiment.__init__/evaluate, Structure.evaluate and of every quantity of a Result is "assigns nothing
reachable from the arguments". It is checked on every path of the real code by comparing the whole reachable heap (public
attributes, list and dict contents, array contents as terms) before and after. Independence of the result is the contract
"reads nothing reachable from the caller": after the evaluation everything the caller can still reach is overwritten by
fresh arbitrary values, and the result must return the same terms.
"""
import copy
import sys

import numpy as np
import pandas as pd

import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorExpm, PropagatorEig, PropagatorLinear
from ..engine import harness
from ..indexed import each
from .. import terms as T
from ..sym import Sym, SymArray, SymLen, mk, vec, parts
from ..stack import AnyPropagator, Segment, Stack
from .c05 import NAMES, rotation

LIST = "structures of at most two layers of each kind; any wavelengths, any number of them, any dispersions"
OUT = ("AnyDispersion",)


class ParamDispersion(elli.dispersions.base_dispersion.Dispersion):
    """any dispersion with a parameter: contract of dielectric_function is 'some function of wavelength and parameter'"""
    single_params_template: dict = {"a": 0}
    rep_params_template: dict = {"b": 0}

    def __init__(self, E, name):
        super().__init__(a=E.real(f"{name}.a", 0.5, 4.0))
        self.add(b=E.real(f"{name}.b", 0.0, 2.0))
        self.table = E.rarray(f"{name}.t", (2,), 0.1, 2.0)
        self.E, self.name = E, name

    def __deepcopy__(self, memo):
        import copy
        r = object.__new__(type(self))
        for k, v in self.__dict__.items():
            r.__dict__[k] = v if k == "E" else copy.deepcopy(v, memo)
        return r

    def dielectric_function(self, lbda):
        a, b, t = self.single_params["a"], self.rep_params[0]["b"], self.table
        if self.E.sym:
            x, d, k, m = parts(lbda)
            f = vec(lambda x: T.fn("dispersion", x, pl=self.name), x)
            return (Sym(f[()], "c") if f.ndim == 0 else mk(f, d, "c")) * b + a + t[0] * t[1]
        x = 500.0 / np.asarray(lbda)
        return a + 1 + b * x ** 2 + t[0] * t[1] * 1j * x


REAL = {
    "cauchy": lambda E, n: elli.Cauchy(E.real(n + "1", 1.0, 2.5), E.real(n + "2", 0.0, 100.0), 0, E.real(n + "3", 0.0, 0.5)),
    "sellmeier": lambda E, n: elli.Sellmeier().add(E.real(n + "1", 0.5, 2.0), 0.01).add(0.5, 100),
    "lorentz": lambda E, n: elli.LorentzEnergy().add(E.real(n + "1", 1.0, 20.0), 4.0, E.real(n + "2", 0.1, 1.0)).add(2, 6, 0.1),
    "tauc": lambda E, n: elli.TaucLorentz(E.real(n + "g", 1.0, 2.5)).add(E.real(n + "1", 5.0, 100.0), 4.0, 2.0),
    "cody": lambda E, n: elli.CodyLorentz(2.0, E.real(n + "1", 5.0, 100.0)),
    "gauss": lambda E, n: elli.Gaussian().add(E.real(n + "1", 1.0, 5.0), 3.5, 0.7),
    "tanguy": lambda E, n: elli.Tanguy(E.real(n + "1", 1.0, 5.0), 2, 3.4, 0.05, 0.3, 1.2),
    "sum": lambda E, n: elli.EpsilonInf(E.real(n + "1", 1.0, 5.0)) + elli.LorentzLambda().add(1.0, 300.0, 10.0) + 0.5,
    "indexsum": lambda E, n: elli.Cauchy(1.3) + elli.ConstantRefractiveIndex(E.real(n + "1", 0.1, 1.0)),
    "table": lambda E, n: elli.Table([100.0, 700.0, 3000.0], [1.5, E.real(n + "1", 1.0, 2.0), 1.4 + 0.1j]),
    "tableeps": lambda E, n: elli.TableEpsilon([100.0, 700.0, 3000.0], [2.5, E.real(n + "1", 1.0, 4.0), 2.4 + 0.1j]),
    "formula": lambda E, n: elli.Formula("eps = e + sum[A / lbda**2]", "lbda", {"e": E.real(n + "1", 1.0, 4.0)},
                                         {"A": [10.0, 20.0]}, "nm"),
    "asindex": lambda E, n: elli.LorentzEnergy().add(E.real(n + "1", 1.0, 20.0), 4.0, 0.3).as_index(),
    "any": ParamDispersion,
}


# ------------------------------------------------------------------------------------------------ the reachable heap
def atom(x):
    return x is None or isinstance(x, (bool, int, float, complex, str, bytes, np.generic))


def opaque(x):
    return isinstance(x, (type, type(sys))) or callable(x) and not hasattr(x, "__dict__") or \
        type(x).__name__ in ("function", "method", "builtin_function_or_method", "E", "SymWorld") or \
        type(x).__module__.startswith("vf.engine") or type(x).__module__ == "abc"


def heap(x, seen=None, keep=None):
    """a value that changes exactly when something public reachable from x does"""
    seen = {} if seen is None else seen
    if atom(x):
        return type(x).__name__, repr(x)
    if isinstance(x, Sym):
        return "sym", x.node.id, x.kind
    if isinstance(x, SymLen):
        return "len", repr(x.dim)
    if isinstance(x, SymArray):
        return "array", x.a.shape, tuple(map(id, x.dims)), x.kind, tuple(n.id for n in x.a.flat)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return "objects", x.shape, tuple(heap(y, seen) for y in x.flat)
        return "ndarray", x.shape, str(x.dtype), x.tobytes(), x.flags.writeable
    if isinstance(x, (pd.DataFrame, pd.Series, pd.Index)):
        return "pandas", heap(x.to_numpy(), seen), heap(list(x.axes[0]) if hasattr(x, "axes") else [], seen)
    if opaque(x):
        return "id", id(x)
    if id(x) in seen:
        return "ref", seen[id(x)]
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        return "dict", tuple((heap(k, seen), heap(v, seen)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x).__name__, tuple(heap(y, seen) for y in x)
    if isinstance(x, (set, frozenset)):
        return "set", tuple(sorted(repr(heap(y, seen)) for y in x))
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict):
        # private attributes are not part of what a caller can see; what they do to later values is checked by `afresh`
        return type(x).__name__, tuple((k, heap(d[k], seen)) for k in sorted(d) if not k.startswith("_"))
    return "id", id(x)


def classes(c=elli.dispersions.base_dispersion.BaseDispersion):
    yield c
    for s in c.__subclasses__():
        if s.__module__.startswith("elli"):
            yield from classes(s)


def world():
    """the state shared by all evaluations: NumPy's error settings, data of the elli modules and of their classes"""
    out = {"np.geterr": dict(np.geterr()), "np.geterrcall": np.geterrcall()}
    for name, m in sorted(sys.modules.items()):
        if name != "elli" and not name.startswith("elli."):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("_"):
                continue
            if isinstance(v, type):
                if v.__module__ != name:
                    continue
                for a, w in sorted(vars(v).items()):
                    if not a.startswith("_") and isinstance(w, (dict, list, set, np.ndarray, int, float, str, complex)):
                        out[f"{name}.{k}.{a}"] = heap(w)
            elif isinstance(v, (dict, list, set, np.ndarray, int, float, str, complex)) or \
                    type(v).__module__.startswith("elli."):
                out[f"{name}.{k}"] = heap(v)
    return out


def havoc(E, x, label, seen):
    """overwrite everything reachable from x in place"""
    if atom(x) or isinstance(x, (Sym, SymLen, tuple)) or opaque(x):
        for y in x if isinstance(x, tuple) else ():
            havoc(E, y, label, seen)
        return
    if id(x) in seen or x is elli.AIR or x is elli.AIR.dispersion_x:
        return
    seen[id(x)] = x
    if isinstance(x, SymArray):
        if x.kind in "fc":
            x[...] = x * 0 + E.real(f"{label}{len(seen)}", 1.0, 9.0)
        return
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc" and x.flags.writeable:
            x[...] = 7.25
        elif x.dtype.kind in "iu" and x.flags.writeable:
            x[...] = 3
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            havoc(E, v, label, seen)
        for k in list(x):
            x[k] = 5.5
        return
    if isinstance(x, (list, set)):
        for v in list(x):
            havoc(E, v, label, seen)
        x.clear()
        return
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and not isinstance(x, (pd.DataFrame, pd.Series)):
        for k, v in list(d.items()):
            havoc(E, v, label, seen)
            if k != "E" and not callable(v):
                d[k] = "overwritten" if isinstance(v, str) else 3.5


# ------------------------------------------------------------------------------------------------ what is evaluated
def dispersion(E, name):
    if E.sym:
        return ParamDispersion(E, name)
    return REAL[E.choose(name + " dispersion", list(REAL))](E, name)


KINDS = ["isotropic", "biaxial", "mixture", "twisted", "varying", "repeated"]


def mix(E, name, kind, host, guest):
    c = elli.VCAMaterial if kind == "vca" else E.choose(name + " mixture", [elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA])
    return c(host, guest, E.real(name + "f", 0.0, 1.0))


def layer(E, name, kinds, h):
    kind = E.choose(name, kinds)
    th = E.real(name + ".d", 0.0, 150.0, special=(0,))
    disps = [dispersion(E, name + x) for x in ("xyz" if kind in ("biaxial", "twisted") else "xy" if kind in (
        "mixture", "varying", "vca") else "x")]
    h["dispersions"] += disps
    if kind in ("biaxial", "twisted"):
        mat = elli.BiaxialMaterial(*disps)
        mat.set_rotation(rotation(E, name))
    else:
        mat = elli.IsotropicMaterial(disps[0])
        if kind in ("mixture", "varying", "vca"):
            h["materials"] += [mat]
            mat = mix(E, name, kind, mat, elli.IsotropicMaterial(disps[1]))
    h["materials"] += [mat]
    if kind == "twisted":
        x = elli.TwistedLayer(mat, th, 2, E.real(name + ".angle", -180.0, 180.0))
    elif kind == "varying":
        x = elli.VaryingMixtureLayer(mat, th, 2)
    elif kind == "repeated":
        inner = [elli.Layer(mat, th)]
        h["layers"] += inner
        x = elli.RepeatedLayers(inner, 2, 0, 1)
    else:
        x = elli.Layer(mat, th)
    h["layers"] += [x]
    return x


def sample(E, kinds, tag=""):
    h = {"dispersions": [], "materials": [], "layers": []}
    ends = [dispersion(E, tag + "front"), dispersion(E, tag + "back")]
    mats = [elli.IsotropicMaterial(e) for e in ends]
    h["dispersions"] += ends
    h["materials"] += mats
    k = E.choose("number of layers", [0, 1, 2]) if not E.sym else 1
    lst = [layer(E, f"{tag}layer{i}", kinds, h) for i in range(k)]
    h["list"] = lst
    h["structure"] = elli.Structure(mats[0], lst, mats[1])
    return h


def wavelengths(E):
    d = E.dim("N")
    return E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)


def vector(E):
    v = E.choose("vector", ["none", "jones"] + ([] if E.sym else ["stokes", "jones list"]))
    if v == "none":
        return None
    if v == "stokes":
        return E.m.array([1.0, E.real("s1", 0.2, 0.9), 0.3, -0.2])
    a, b = E.cplx("ja", (0.1, 1.0), (-1.0, 1.0)), E.cplx("jb", (0.1, 1.0), (-1.0, 1.0))
    return E.m.array([a, b]) if v == "jones" else [a, b]


def read(E, r, names):
    return {n: getattr(r, n) for n in names}


def agree(E, label, a, b):
    for n in a:
        if E.sym:
            E.eq(f"{label}: {n}", a[n], b[n])
        else:
            E.true(f"{label}: {n}", a[n].shape == b[n].shape and a[n].dtype == b[n].dtype
                   and bool(np.array_equal(a[n], b[n], equal_nan=True)))


def snap(r):
    return {n: (v.copy() if hasattr(v, "copy") else v) for n, v in r.items()}


ERR = [{}, {"divide": "ignore"}, {"over": "warn", "under": "warn", "divide": "warn", "invalid": "warn"},
       {"all": "ignore", "under": "print"}]
CORE = ["jones_matrix_r", "jones_matrix_t", "T_matrix", "R", "T", "jones_matrix_rc", "jones_matrix_tc", "rho_matrix",
        "rho", "psi", "delta", "mueller_matrix"]
CORE = [n for n in CORE if n in NAMES]


def solver(E, which):
    if which == "2x2":
        return {"solver": Solver2x2}, (["isotropic", "vca"] if E.sym else ["isotropic", "mixture", "varying",
                                                                                           "repeated"])
    kw = {"solver": Solver4x4}
    kw["propagator"] = PropagatorExpm() if E.sym else E.choose("propagator", [
        PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig(), PropagatorLinear()])
    return kw, KINDS


def frame(E, which):
    """evaluate, read everything, evaluate again, overwrite everything"""
    lb, v = wavelengths(E), vector(E)
    kw, kinds = solver(E, which)
    h = sample(E, kinds)
    s, theta = h["structure"], E.real("theta", 0.0, 85.0, special=(0, 45))
    names = CORE if E.sym else NAMES
    scalar = (not E.sym) and E.choose("scalar wavelength", [False, False, True])
    if scalar:
        lb = float(lb[0])
    how = E.choose("how", ["experiment", "structure"]) if v is None else "experiment"
    reachable = [h, lb, v]
    settings = {} if E.sym else E.choose("error settings", ERR)
    with np.errstate(**settings):
        before, state = heap(reachable), world()

        def check(what):
            E.true(f"{what}: arguments unchanged", heap(reachable) == before)
            now = world()
            E.true(f"{what}: shared state unchanged", now == state)
        ex = elli.Experiment(s, lb, theta, v)
        check("creating an experiment")
        ex_before = heap(ex)
        r1 = ex.evaluate(**kw) if how == "experiment" else s.evaluate(lb, theta, **kw)
        check("evaluating")
        E.true("evaluating: experiment unchanged", heap(ex) == ex_before)
        r2 = ex.evaluate(**kw)
        check("evaluating again")
        a = snap(read(E, r2, names))
        check("reading")
        E.true("reading: experiment unchanged", heap(ex) == ex_before)
        agree(E, "reading twice", a, read(E, r2, names))
        agree(E, "evaluating twice", a, read(E, r1, names[::2]) | read(E, r1, names[1::2]))
        r3 = ex.evaluate(**kw)
        early = read(E, r3, names[::3])
        kept = snap(early)
        havoc(E, reachable, "new", {})
        havoc(E, {k: x for k, x in ex.__dict__.items()}, "newer", {})
        for k in list(ex.__dict__):
            setattr(ex, k, None)
        agree(E, "values already read", kept, early)
        agree(E, "read after everything changed (read before)", a, read(E, r2, names))
        agree(E, "read after everything changed (partly read)", a, read(E, r3, names))
        agree(E, "read after everything changed (not read)", a, read(E, r1, names))


@harness("C06", n=60, bounded=LIST)
def frame_4x4(E):
    frame(E, "4x4")


@harness("C06", n=60, bounded=LIST)
def frame_2x2(E):
    frame(E, "2x2")


def modify(E, h, new):
    """what a user may do to a sample between two evaluations"""
    for d in h["dispersions"]:
        p = {k: v for k, v in d.single_params.items() if isinstance(v, (float, Sym)) and not isinstance(v, bool)}
        for k in sorted(p)[:1]:
            d.single_params[k] = p[k] * 1.25
        for r in d.rep_params[:1]:
            k = sorted(r)[0]
            r[k] = r[k] * 1.25
    for m in h["materials"]:
        if hasattr(m, "set_fraction") and not isinstance(m, elli.IsotropicMaterial):
            m.set_fraction(new["f"])
        if isinstance(m, elli.BiaxialMaterial):
            m.set_rotation(new["R"])
    for x in h["layers"]:
        if hasattr(x, "set_thickness"):
            x.set_thickness(new["d"])
    what = new["what"]
    if what == "append":
        h["list"].append(elli.Layer(new["m"], new["d"]))
    elif what == "material" and h["layers"] and isinstance(h["layers"][0], elli.Layer):
        h["layers"][0].set_material(new["m"])
    elif what == "front":
        h["structure"].set_front_material(new["m"])


def afresh(E, which):
    """an evaluation leaves nothing behind: later evaluations are those of a twin that was never evaluated"""
    import copy
    lb, v = wavelengths(E), None if E.sym else vector(E)
    kw, kinds = solver(E, which)
    h = sample(E, kinds)
    twin = copy.deepcopy(h)
    theta = E.real("theta", 0.0, 85.0)
    names = CORE if E.sym else NAMES
    read(E, elli.Experiment(h["structure"], lb, theta, v).evaluate(**kw), names)
    disp = dispersion(E, "extra")
    new = {"f": E.real("new f", 0.0, 1.0), "R": elli.utils.rotation_euler(E.real("new angle", -180.0, 180.0), 0, 0),
           "d": E.real("new d", 0.0, 150.0), "m": elli.IsotropicMaterial(disp),
           "what": E.choose("change", ["append", "material", "front"] if which == "4x4" or not E.sym else ["material"])}
    modify(E, h, new)
    modify(E, twin, new)
    again = E.choose("wavelengths", ["moved"] + ([] if E.sym else ["same"]))
    if again == "moved":
        lb[...] = lb * 1.25 + 10
    a = read(E, elli.Experiment(twin["structure"], lb, theta, v).evaluate(**kw), names)
    agree(E, "evaluating a changed sample", a, read(E, elli.Experiment(h["structure"], lb, theta, v).evaluate(**kw), names))


@harness("C06", n=60, bounded=LIST)
def afresh_4x4(E):
    afresh(E, "4x4")


@harness("C06", n=60, bounded=LIST, maxpaths=600)
def afresh_2x2(E):
    afresh(E, "2x2")


@harness("C06", n=80, bounded=LIST)
def tensors(E):
    """tensors and profiles already returned belong to the caller: they stay, and writing into them changes nothing"""
    lb = wavelengths(E)
    h = sample(E, KINDS)
    twin = copy.deepcopy(h)
    mats, s = h["materials"], h["structure"]
    got = [x.get_tensor(lb) for x in mats] + [x.get_refractive_index(lb) for x in mats]
    profile = s.get_permittivity_profile(lb)
    flat = [t for d, t in profile]
    thick = [d for d, t in profile]
    kept, fkept, tkept = [t.copy() for t in got], [t.copy() for t in flat], list(thick)
    again = [t for d, t in s.get_permittivity_profile(lb)]
    second = [x.get_tensor(lb) for x in mats]
    for i, t in enumerate(got):
        t[...] = t * 0 + 7
    E.true("the same profile again", len(again) == len(fkept))
    for i in range(len(mats)):
        E.eq("evaluated again", second[i], kept[i])
        E.eq("evaluated after the first tensor was overwritten", mats[i].get_tensor(lb), kept[i])
    for a, b in zip(again, fkept):
        E.eq("profile evaluated again", a, b)
    new = {"f": E.real("new f", 0.0, 1.0), "R": elli.utils.rotation_euler(E.real("new angle", -180.0, 180.0), 0, 0),
           "d": E.real("new d", 0.0, 150.0), "what": "nothing"}
    modify(E, h, new)
    modify(E, twin, new)
    for x, y in zip(mats, twin["materials"]):
        E.eq("tensor of the changed material", x.get_tensor(lb), y.get_tensor(lb))
    a, b = s.get_permittivity_profile(lb), twin["structure"].get_permittivity_profile(lb)
    E.true("slices of the changed structure", len(a) == len(b))
    for (d, t), (e, u) in list(zip(a, b))[1:-1]:
        E.eq("thicknesses of the changed structure", d, e)
        E.eq("profile of the changed structure", t, u)
    for i, t in enumerate(second):
        E.eq("tensor already returned", t, kept[i])
    for i, t in enumerate(flat):
        E.eq("profile already returned", t, fkept[i])
    E.true("list already returned", len(profile) == len(tkept) and all(
        (a is b or bool(a == b)) for (a, t), b in zip(profile, tkept)))


def used(E, which):
    """an experiment that was evaluated evaluates like a new one after each of its settings is changed"""
    what = E.choose("changed", ["structure", "lbda", "theta", "vector"])
    lb = wavelengths(E)
    kw, kinds = solver(E, which)
    h = sample(E, kinds[:1] if E.sym else kinds)
    now = {"structure": h["structure"], "lbda": lb, "theta": E.real("theta", 0.0, 85.0), "vector": None}
    names = CORE if E.sym else NAMES
    ex = elli.Experiment(now["structure"], now["lbda"], now["theta"], now["vector"])
    read(E, ex.evaluate(**kw), names)
    if what == "structure":
        if E.sym:
            now[what] = elli.Structure(h["materials"][0], [], elli.IsotropicMaterial(dispersion(E, "other")))
        else:
            now[what] = sample(E, kinds, "other ")["structure"]
    elif what == "theta":
        now[what] = E.real("other theta", 0.0, 85.0)
    elif what == "lbda":
        same = E.choose("axis", ["same length", "other length"]) == "same length"
        now[what] = lb * 1.25 + 10 if same else E.rarray("other lbda", (E.dim("M"),), 250.0, 2000.0)
    else:
        now[what] = E.m.array([E.cplx("ka", (0.1, 1.0), (-1.0, 1.0)), E.cplx("kb", (0.1, 1.0), (-1.0, 1.0))])
    getattr(ex, "set_" + what)(now[what])
    r = read(E, ex.evaluate(**kw), names)
    agree(E, "used experiment", r, read(E, elli.Experiment(now["structure"], now["lbda"], now["theta"], now["vector"]).evaluate(**kw), names))


@harness("C06", n=60, bounded=LIST)
def used_4x4(E):
    used(E, "4x4")


@harness("C06", n=60, bounded=LIST, maxpaths=600)
def used_2x2(E):
    used(E, "2x2")


# ---------------------------------------------------------------- any material, any stack (no bound on their size)
class FreshMaterial(elli.materials.Material):
    """a material known only by its contract: get_tensor returns a fresh array and changes nothing"""

    def __init__(self, t):
        self.t = t

    def get_tensor(self, lbda):
        return self.t.copy()


def one_material(E, kind, d, tag=""):
    """-> (material, its constituents): each class over constituents known by the same contract, so by induction any nesting"""
    given = lambda n: FreshMaterial(E.carray(f"{tag}{n}", (d, 3, 3), (0.5, 9.0), (0.0, 4.0)))
    if kind == "isotropic":
        return elli.IsotropicMaterial(dispersion(E, tag + "x"))
    if kind == "uniaxial":
        return elli.UniaxialMaterial(dispersion(E, tag + "x"), dispersion(E, tag + "z"))
    if kind == "biaxial":
        return elli.BiaxialMaterial(*(dispersion(E, tag + c) for c in "xyz"))
    c = {"vca": elli.VCAMaterial, "looyenga": elli.LooyengaEMA, "garnett": elli.MaxwellGarnettEMA, "bruggeman": elli.BruggemanEMA}[kind]
    return c(given("host"), given("guest"), E.real(tag + "f", 0.0, 1.0))


def change(E, mat, new):
    if isinstance(mat, elli.materials.MixtureMaterial):
        mat.set_fraction(new["f"])
        mat.host_material.t[...] = mat.host_material.t * 1.25
    else:
        mat.set_rotation(new["R"])
        mat.dispersion_x.single_params["a"] = new["f"]
        mat.dispersion_z.rep_params[0]["b"] = new["b"]


@harness("C06", n=60)
def any_material(E):
    """contract of every material class: fresh tensors, nothing changed, nothing kept"""
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)
    kind = E.choose("kind", ["isotropic", "uniaxial", "biaxial", "vca", "looyenga", "garnett", "bruggeman"])
    if not E.sym and kind in ("isotropic", "uniaxial", "biaxial"):
        mat = {"isotropic": elli.IsotropicMaterial, "uniaxial": elli.UniaxialMaterial, "biaxial": elli.BiaxialMaterial}[kind](
            *(ParamDispersion(E, c) for c in "xyz"[:{"isotropic": 1, "uniaxial": 2, "biaxial": 3}[kind]]))
    else:
        mat = one_material(E, kind, d)
    if kind == "biaxial" and E.choose("rotated", [True, False]):
        mat.set_rotation(rotation(E, "m"))
    twin = copy.deepcopy(mat)
    before = heap([mat, lb])
    calls = [lambda m: m.get_tensor(lb), lambda m: m.get_refractive_index(lb)]
    if hasattr(mat, "get_tensor_fraction"):
        g = E.real("g", 0.0, 1.0)
        calls.append(lambda m: m.get_tensor_fraction(lb, g))
    got = [f(mat) for f in calls]
    kept = [t.copy() for t in got]
    E.true("material and wavelengths unchanged", heap([mat, lb]) == before)
    for t in got[:1]:
        t[...] = t * 0 + 7
    for i, f in enumerate(calls):
        E.eq("evaluated after the first tensor was overwritten", f(mat), kept[i])
    E.true("material and wavelengths still unchanged", heap([mat, lb]) == before)
    new = {"f": E.real("new f", 0.0, 1.0), "b": E.real("new b", 0.0, 2.0),
           "R": elli.utils.rotation_euler(E.real("new angle", -180.0, 180.0), 0, 0)}
    change(E, mat, new)
    change(E, twin, new)
    for f in calls:
        E.eq("tensor of the changed material", f(mat), f(twin))
    havoc(E, [mat], "new", {})
    lb[...] = lb * 1.5
    for i, t in enumerate(got):
        if i:
            E.eq("tensor already returned", t, kept[i])


@harness("C06", n=60)
def any_layer(E):
    """contract of a homogeneous layer over any material, and of a structure's own methods"""
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)
    fresh = lambda n: FreshMaterial(E.carray(n, (d, 3, 3), (0.5, 9.0), (0.0, 4.0)))
    kind = E.choose("layer", ["homogeneous", "twisted", "mixture"])
    th = E.real("d", 0.0, 200.0, lo_open=kind != "homogeneous")
    n = E.integer("div", 1, None if E.sym else 9)
    if kind == "homogeneous":
        x, n = elli.Layer(fresh("t"), th), 1
    elif kind == "twisted":
        x = elli.TwistedLayer(fresh("t"), th, n, E.real("angle", -360.0, 360.0))
    else:
        x = elli.VaryingMixtureLayer(elli.VCAMaterial(fresh("t"), fresh("u"), E.real("f", 0.0, 1.0)), th, n)
    before = heap([x, lb])
    p = x.get_permittivity_profile(lb)
    each(E, "slices", p, n)
    kept = [(h, t.copy()) for h, t in p]
    E.true("layer and wavelengths unchanged", heap([x, lb]) == before)
    p[0][1][...] = p[0][1] * 0 + 7
    p.clear()
    q = x.get_permittivity_profile(lb)
    each(E, "slices again", q, n)
    for i in range(len(kept)):
        E.eq("thickness again", q[i][0], kept[i][0])
        E.eq("tensor again", q[i][1], kept[i][1])
    E.true("layer and wavelengths still unchanged", heap([x, lb]) == before)
    x.set_thickness(E.real("e", 0.0, 200.0))
    if kind != "homogeneous":
        x.set_divisions(n + 1)
    havoc(E, [x], "new", {})
    for i in range(len(kept)):
        E.eq("profile already returned: thickness", q[i][0], kept[i][0])
        E.eq("profile already returned: tensor", q[i][1], kept[i][1])


@harness("C06", n=60)
def any_stack_4x4(E):
    """Experiment, Solver4x4 and Result with a structure of any number of slices"""
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 250.0, 2000.0, axis=True)
    v = vector(E)
    theta = E.real("theta", 0.0, 85.0)
    seg = Segment(E, "layers", d, None)
    slices = []

    def slice_(tag):
        t = E.carray("eps " + tag, (d, 3, 3), (1.0, 6.0), (0.0, 4.0))
        slices.append((t, t.copy()))
        return E.real("d " + tag, 0.0, 60.0), t
    seg.slice_ = slice_
    if E.sym:
        prop = AnyPropagator(E, d)
    else:
        prop = E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig(), PropagatorLinear()])
    front, back = (elli.IsotropicMaterial(ParamDispersion(E, n)) for n in ("front", "back"))
    seg.prop, seg.lb = prop, lb.copy()
    seg.kx = front.get_refractive_index(lb)[:, 0, 0] * E.m.sin(E.m.deg2rad(theta))
    tf, tb = front.get_tensor(lb), back.get_tensor(lb)
    if E.sym:
        items = [seg]
    else:
        items = seg.draw()
    s = Stack(front, tf, items, back, tb)
    reachable = [front, back, lb, v, tf, tb] + ([] if E.sym else [items])
    before, state = heap(reachable), world()

    def check(what):
        E.true(f"{what}: arguments unchanged", heap(reachable) == before)
        E.true(f"{what}: shared state unchanged", world() == state)
        for t, c in slices:
            E.eq(f"{what}: slices unchanged", t, c)
    names = CORE if E.sym else NAMES
    ex = elli.Experiment(s, lb, theta, v)
    check("creating an experiment")
    r = ex.evaluate(solver=Solver4x4, propagator=prop)
    check("evaluating")
    a = snap(read(E, r, names))
    check("reading")
    agree(E, "reading twice", a, read(E, r, names))
    r2 = ex.evaluate(solver=Solver4x4, propagator=prop)
    agree(E, "evaluating twice", a, read(E, r2, names))
    r3 = ex.evaluate(solver=Solver4x4, propagator=prop)
    havoc(E, [front, back, lb, v, tf, tb], "new", {})
    havoc(E, {k: x for k, x in ex.__dict__.items() if k != "structure"}, "newer", {})
    for k in list(ex.__dict__):
        setattr(ex, k, None)
    s._items = None
    agree(E, "read after everything changed (read before)", a, read(E, r2, names))
    agree(E, "read after everything changed (not read)", a, read(E, r3, names))


@harness("C06", n=60)
def any_stack_again(E):
    """an experiment that was evaluated evaluates like a new one after each of its settings is changed, any number of slices"""
    what = E.choose("changed", ["lbda", "lbda in place", "theta", "vector", "materials"])
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 250.0, 2000.0, axis=True).copy()
    theta, v = E.real("theta", 0.0, 85.0), None
    seg = Segment(E, "layers", d, None)
    seg.slice_ = lambda tag: (E.real("d " + tag, 0.0, 60.0), E.carray("eps " + tag, (d, 3, 3), (1.0, 6.0), (0.0, 4.0)))
    prop = AnyPropagator(E, d) if E.sym else E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig()])
    media = [ParamDispersion(E, n) for n in ("front", "back")]
    front, back = (elli.IsotropicMaterial(x) for x in media)
    items = [seg] if E.sym else seg.draw()
    s = Stack(front, None, items, back, None)

    def given():
        seg.prop, seg.lb = prop, lb
        seg.kx = front.get_refractive_index(lb)[:, 0, 0] * E.m.sin(E.m.deg2rad(theta))
        s._items = (front.get_tensor(lb), items, back.get_tensor(lb))
    given()
    ex = elli.Experiment(s, lb, theta, v)
    names = CORE if E.sym else NAMES
    read(E, ex.evaluate(solver=Solver4x4, propagator=prop), names)
    if what == "theta":
        theta = E.real("other theta", 0.0, 85.0)
        ex.set_theta(theta)
    elif what == "lbda":
        lb = lb * 1.25 + 10
        ex.set_lbda(lb)
    elif what == "lbda in place":
        lb[...] = lb * 1.25 + 10
    elif what == "vector":
        v = E.m.array([E.cplx("ka", (0.1, 1.0), (-1.0, 1.0)), E.cplx("kb", (0.1, 1.0), (-1.0, 1.0))])
        ex.set_vector(v)
    else:
        for x in media:
            x.single_params["a"] = x.single_params["a"] * 1.25
            x.rep_params[0]["b"] = x.rep_params[0]["b"] + 0.5
    given()
    a = read(E, ex.evaluate(solver=Solver4x4, propagator=prop), names)
    agree(E, f"{what} changed", a, read(E, elli.Experiment(s, lb, theta, v).evaluate(solver=Solver4x4, propagator=prop), names))
