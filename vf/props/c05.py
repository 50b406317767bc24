"""C05 spectra are computed wavelength by wavelength"""
import numpy as np

import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorExpm, PropagatorEig, PropagatorLinear
from ..engine import harness
from ..indexed import each, depends
from ..sym import is_sym
from .. import terms as T
from ..stack import PointwiseSegment, Profile
from ..sym import Sym, SymArray, mk, vec, parts

LIST = "structures of at most two layers of each kind; any wavelengths, any number of them, any dispersions"


class AnyDispersion(elli.dispersions.base_dispersion.Dispersion):
    """a dispersion known only by its contract: some function of the wavelength alone, evaluated for each one"""
    single_params_template: dict = {}
    rep_params_template: dict = {}

    def __init__(self, E, name, absorbing=True):
        super().__init__()
        self.E, self.name = E, name
        if not E.sym:
            self.p = [E.real(f"{name}.{k}", 0.1, 2.0) for k in range(4)]
            self.p[3] *= 1.0 if absorbing else 0.0

    def __deepcopy__(self, memo):
        return self

    def value(self, lbda):
        if self.E.sym:
            a, d, k, m = parts(lbda)
            f = vec(lambda x: T.fn("dispersion", x, pl=self.name), a)
            return Sym(f[()], "c") if f.ndim == 0 else mk(f, d, "c")
        x = 500.0 / np.asarray(lbda)
        return 1 + self.p[0] + self.p[1] * x ** 2 + self.p[2] * np.sin(3 * x) ** 2 + 1j * self.p[3] * x

    def dielectric_function(self, lbda):
        return self.value(lbda)


class AnyIndex(elli.dispersions.base_dispersion.IndexDispersion):
    single_params_template: dict = {}
    rep_params_template: dict = {}

    def __init__(self, E, name):
        super().__init__()
        self.f = AnyDispersion(E, name)

    def refractive_index(self, lbda):
        return self.f.value(lbda)


def wavelengths(E):
    d = E.dim("N")
    return d, E.rarray("lbda", (d,), 200.0, 2500.0, axis=True)


def compare(E, label, a, b, circle=False):
    if circle:
        a, b = E.m.exp(1j * E.m.deg2rad(a)), E.m.exp(1j * E.m.deg2rad(b))
    if E.sym:
        E.eq(label, a, b)
        return
    ok = np.isfinite(a) & np.isfinite(b)
    a, b = np.asarray(a), np.asarray(b)
    E.true(f"{label}: shape", a.shape == b.shape)
    if a.shape == b.shape:
        E.true(f"{label}: finite at the same places", bool(np.all(np.isfinite(a) == np.isfinite(b))))
        s = max(1.0, float(np.max(np.abs(np.where(ok, a, 0)), initial=0)))
        E.eq(label, np.where(ok, a, 0), np.where(ok, b, 0), rtol=1e-9, scale=s)


def pointwise(E, d, lb, f):
    """f: wavelengths -> {name: spectrum}"""
    m = E.m
    full = f(lb)
    if E.sym:
        places = [E.position(d)]
    else:
        n = len(lb)
        places = sorted(set([0, n - 1, E.position(d), E.choose("second position", list(range(40))) % n]))
    for p in places:
        one, scalar = f(m.array([lb[p]])), f(lb[p])
        E.true("quantities", set(full) == set(one) == set(scalar))
        for k in full:
            c = k.startswith("delta")
            compare(E, k, full[k][p], one[k][0], c)
            compare(E, k + " (scalar wavelength)", scalar[k], one[k], c)


def rotation(E, name):
    return elli.utils.rotation_euler(*(E.real(name + a, -180.0, 180.0, special=(0, 90)) for a in "pnr"))


def material(E, name, kinds):
    kind = E.choose(name + " kind", kinds)
    e = [AnyDispersion(E, name + x) for x in "xyz"]
    if kind == "isotropic":
        return elli.IsotropicMaterial(e[0])
    if kind == "index":
        return elli.IsotropicMaterial(AnyIndex(E, name + "n"))
    if kind == "uniaxial":
        return elli.UniaxialMaterial(e[0], e[1])
    if kind == "biaxial":
        return elli.BiaxialMaterial(*e)
    if kind == "rotated":
        r = elli.BiaxialMaterial(*e)
        r.set_rotation(rotation(E, name))
        return r
    h, g = elli.IsotropicMaterial(e[0]), elli.UniaxialMaterial(e[1], e[2])
    if kind == "nested":
        return elli.VCAMaterial(elli.LooyengaEMA(h, elli.IsotropicMaterial(e[1]), 0.3), g, E.real(name + "f", 0.0, 1.0))
    if kind == "bruggeman":
        return elli.BruggemanEMA(h, elli.IsotropicMaterial(e[1]), E.real(name + "f", 0.0, 1.0))
    return {"vca": elli.VCAMaterial, "looyenga": elli.LooyengaEMA, "maxwell": elli.MaxwellGarnettEMA}[kind](
        h, g, E.real(name + "f", 0.0, 1.0))


@harness("C05", n=100)
def materials(E):
    d, lb = wavelengths(E)
    x = material(E, "m", ["isotropic", "index", "uniaxial", "biaxial", "rotated", "vca", "looyenga", "maxwell", "bruggeman",
                          "nested"])
    pointwise(E, d, lb, lambda l: {"tensor": x.get_tensor(l), "index tensor": x.get_refractive_index(l)})


def layer(E, name, kinds):
    kind = E.choose(name, kinds)
    th = E.real(name + ".d", 0.0, 150.0, special=(0,))
    if kind == "twisted":
        return elli.TwistedLayer(material(E, name, ["biaxial"]), th, 2, E.real(name + ".angle", -180.0, 180.0))
    if kind == "mixture":
        return elli.VaryingMixtureLayer(material(E, name, ["vca"]), th, 2)
    x = elli.Layer(material(E, name, ["isotropic" if kind == "repeated" else kind]), th)
    return elli.RepeatedLayers([x], 2, 0, 1) if kind == "repeated" else x


@harness("C05", n=60, bounded=LIST)
def profiles(E):
    d, lb = wavelengths(E)
    s = elli.Structure(material(E, "front", ["isotropic"]),
                       [layer(E, "layer", ["isotropic", "twisted", "mixture", "repeated"])],
                       material(E, "back", ["isotropic", "uniaxial"]))

    def f(l):
        p = s.get_permittivity_profile(l)
        E.true("thicknesses are numbers", all(E.m.ndim(t) == 0 for t, e in p))
        return {f"tensor of slice {i}": e for i, (t, e) in enumerate(p)}
    pointwise(E, d, lb, f)
    if not E.sym:
        one, full = s.get_permittivity_profile(lb[:1]), s.get_permittivity_profile(lb)
        E.true("same thicknesses", [t for t, e in one] == [t for t, e in full])


@harness("C05", n=60)
def any_layer(E):
    """a homogeneous layer, a twisted layer or a varying mixture with any number of divisions"""
    d, lb = wavelengths(E)
    kind = E.choose("layer", ["homogeneous", "twisted", "mixture", "modulated"])
    th = E.real("layer.d", 0.0, 150.0, lo_open=True)
    n = E.integer("div", 1, None if E.sym else 12)
    fs = {}
    if kind == "homogeneous":
        x, n = elli.Layer(material(E, "m", ["isotropic", "uniaxial"]), th), 1
    elif kind == "twisted":
        x = elli.TwistedLayer(material(E, "m", ["biaxial"]), th, n, E.real("angle", -180.0, 180.0))
    else:
        def mod(z):
            for a, v in fs.items():
                if v[0] is z or bool(v[0] == z):
                    return v[1]
            fs[len(fs)] = (z, depends(E.real(f"f{len(fs)}", 0.0, 1.0), z))
            return fs[len(fs) - 1][1]
        x = elli.VaryingMixtureLayer(material(E, "m", ["vca"]), th, n, *([mod] if kind == "modulated" else []))

    def f(l):
        p = each(E, "slices", x.get_permittivity_profile(l), n)
        E.true("thicknesses are numbers", all(E.m.ndim(t) == 0 for k, (t, e) in p))
        return {f"tensor of slice {i}" if not E.sym else "tensor of a slice": e for i, (k, (t, e)) in enumerate(p)}
    pointwise(E, d, lb, f)


NAMES = ["psi", "delta", "rho", "R", "T", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc", "jones_matrix_tc",
         "psi_matrix", "delta_matrix", "rho_matrix", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "mueller_matrix",
         "psi_t", "delta_t", "rho_t", "psi_matrix_t", "delta_matrix_t", "rho_matrix_t"]
NAMES = [n for n in NAMES if hasattr(elli.result.Result, n)]


def quantities(names, s, theta, vector=None, **kw):
    def f(l):
        r = elli.Experiment(s, l, theta, vector).evaluate(**kw)
        q = {n: getattr(r, n) for n in names}
        for n in q:
            if n.startswith("delta") and not is_sym(l):
                # the phase of a ratio that is rounding noise says nothing
                ratio = np.abs(getattr(r, n.replace("delta", "rho")))
                q[n] = np.where((ratio > 1e-7) & (ratio < 1e7), q[n], 0.0)
        return q
    return f


CORE = ["jones_matrix_r", "jones_matrix_t", "rho", "T_matrix"]


@harness("C05", n=80, bounded=LIST)
def solver_4x4(E):
    d, lb = wavelengths(E)
    kinds = ["isotropic", "rotated"] if E.sym else ["isotropic", "rotated", "twisted", "mixture", "repeated"]
    k = E.choose("layers", [0, 1, 2])
    s = elli.Structure(material(E, "front", ["isotropic"]), [layer(E, f"layer{i}", kinds) for i in range(k)],
                       material(E, "back", ["isotropic"] if E.sym else ["isotropic", "uniaxial"]))
    kw = {"solver": Solver4x4}
    kw["propagator"] = PropagatorExpm() if E.sym else E.choose(
        "propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig(), PropagatorLinear()])
    pointwise(E, d, lb, quantities(CORE if E.sym else NAMES, s, E.real("theta", 0.0, 89.0, special=(0, 45)), **kw))


@harness("C05", n=80, bounded=LIST)
def solver_2x2(E):
    d, lb = wavelengths(E)
    k = E.choose("layers", [0, 1, 2])
    s = elli.Structure(material(E, "front", ["isotropic"]), [layer(E, f"layer{i}", ["isotropic"]) for i in range(k)],
                       material(E, "back", ["isotropic"]))
    pointwise(E, d, lb, quantities(CORE if E.sym else NAMES, s, E.real("theta", 0.0, 89.0, special=(0, 45)), solver=Solver2x2))


class PointwiseStack(elli.Structure):
    """a structure of arbitrarily many slices, each tensor an arbitrary function of the wavelength"""

    def __init__(self, E, front, back, theta):
        super().__init__(front, [], back)
        self.E, self.theta = E, theta
        self.seg = PointwiseSegment(E, "layers", None, self.slice)
        self.d = {}

    def slice(self, tag):
        m = self.E.m
        if tag not in self.d:
            self.d[tag] = (self.E.real("d " + tag, 0.0, 100.0),
                           [[AnyDispersion(self.E, f"eps{tag},{i}{j}") for j in range(3)] for i in range(3)])
        t, e = self.d[tag]
        return t, m.moveaxis(m.array([[x.value(self.seg.lb) for x in r] for r in e]), 2, 0)

    def get_permittivity_profile(self, lbda):
        lb = lbda if self.E.m.ndim(lbda) else self.E.m.array([lbda])
        kx = self.front_material.get_refractive_index(lb)[:, 0, 0] * self.E.m.sin(self.E.m.deg2rad(self.theta))
        seg = self.seg.at(lb, kx)
        ends = [(np.inf, x.get_tensor(lb)) for x in (self.front_material, self.back_material)]
        return Profile([ends[0], seg, ends[1]]) if self.E.sym else ends[:1] + seg.draw() + ends[1:]


@harness("C05", n=60)
def any_stack_4x4(E):
    """any number of slices: the ghost matrix of the loop over the slices is a function of the wavelength"""
    d, lb = wavelengths(E)
    theta = E.real("theta", 0.0, 89.0, special=(0, 45))
    s = PointwiseStack(E, material(E, "front", ["isotropic", "index"]), material(E, "back", ["isotropic"]), theta)
    s.seg.prop = PropagatorExpm() if E.sym else E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy")])
    v = E.choose("vector", [None, "jones"])
    if v:
        v = E.m.array([E.cplx("ja", (0.1, 1.0), (-1.0, 1.0)), E.cplx("jb", (0.1, 1.0), (-1.0, 1.0))])
    pointwise(E, d, lb, quantities(CORE + MORE if E.sym else NAMES, s, theta, v, solver=Solver4x4, propagator=s.seg.prop))


MORE = ["psi", "delta", "R", "T", "jones_matrix_rc", "jones_matrix_tc", "rho_matrix", "mueller_matrix"]
