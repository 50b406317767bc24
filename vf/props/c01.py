"""C01 Solver2x2 and Solver4x4 agree on isotropic stacks"""
import numpy as np

import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4, PropagatorExpm, PropagatorEig
from ..engine import harness
from ..indexed import Family, LoopRule, Sequence, add, alike, eq, sub
from ..stack import Profile, Segment
from ..sym import Hooks, Unsupported
from .common import Given


def index(E, name, d, absorbing=True, special=()):
    if absorbing:
        n = E.carray(name, (d,), (0.05, 5.0), (0.0, 5.0), special=(1, 1.5, 3) + tuple(special))
    else:
        n = E.rarray(name, (d,), 1.0, 4.0, special=(1, 1.5, 3))
    E.root_hint(n)
    return n


def medium(n):
    return elli.IsotropicMaterial(Given(n ** 2 + 0j))


def setup(E, L, front_abs=False):
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th = E.real("theta", 0.0, 89.0, special=(0, 30, 45, 60))
    E.trig_atoms(E.m.deg2rad(th))
    nf = index(E, "nf", d, front_abs)
    near = ()
    if not E.sym:
        # samples just beyond and just before total reflection, and barely absorbing ones
        k = np.ravel(nf)[0] * np.sin(np.deg2rad(th))
        near = [x for x in (k * (1 - 1e-5), k * (1 - 1e-7), k * (1 + 1e-5), k * (1 - 1e-4) + 1e-5j) if x.real >= 0.05]
    nb = index(E, "nb", d, special=near)
    ns = [index(E, f"n{i}", d, special=near) for i in range(L)]
    ds = [E.real(f"d{i}", 0.0, 100.0, special=(0, 10)) for i in range(L)]
    s = elli.Structure(medium(nf), [elli.Layer(medium(n), t) for n, t in zip(ns, ds)], medium(nb))
    return d, lb, th, nf, nb, ns, ds, s


def cosine(E, nf, th, n, tag):
    """facts about cos of the refracted angle in a passive medium: sqrt(1 - (nf sin/n)^2) lies in the first quadrant"""
    m = E.m
    c = m.csqrt(1 - (nf * m.sin(m.deg2rad(th)) / n) ** 2)
    if E.sym:
        E.lemma(f"{tag}: cosine in the upper half plane", m.imag(c) >= 0)
        E.lemma(f"{tag}: wave travels or decays forwards", m.imag(n * c) >= 0)
        E.lemma(f"{tag}: energy forwards", m.real(n * c) >= 0)
    E.assume((m.imag(n * c) > 1e-10) | (m.real(n * c) > 0))
    return c


@harness("C01", n=60)
def interface(E):
    d, lb, th, nf, nb, ns, ds, s = setup(E, 0)
    cf = E.m.cos(E.m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    cosine(E, nf, th, nb, "exit")
    a = s.evaluate(lb, th, solver=Solver2x2)
    b = s.evaluate(lb, th, solver=Solver4x4)
    for i in range(2):
        for j in range(2):
            E.eq(f"r{i}{j}", a.jones_matrix_r[:, i, j], b.jones_matrix_r[:, i, j], scale=1)
            E.eq(f"t{i}{j}", a.jones_matrix_t[:, i, j], b.jones_matrix_t[:, i, j], scale=1)


def agreed(E, nf, th, n, tag):
    """in an absorbing front medium kx is complex; the wave in the exit medium is unambiguous where it travels and decays
    forwards (elsewhere the solvers disagree: known finding absorbing-front-branch)"""
    m = E.m
    c = m.csqrt(1 - (nf * m.sin(m.deg2rad(th)) / n) ** 2)
    E.assume((m.imag(n * c) >= 0) & (m.real(n * c) > 1e-9))


def absorbing_front(E, L):
    m = E.m
    d, lb, th, nf, nb, ns, ds, s = setup(E, L, True)
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    agreed(E, nf, th, nb, "exit")
    a = s.evaluate(lb, th, solver=Solver2x2)
    b = s.evaluate(lb, th, solver=Solver4x4)
    if not E.sym:
        E.assume(np.all(np.isfinite(b.jones_matrix_r)))
    for i in range(2):
        for j in range(2):
            E.eq(f"r{i}{j}", a.jones_matrix_r[:, i, j], b.jones_matrix_r[:, i, j], scale=1)
            E.eq(f"t{i}{j}", a.jones_matrix_t[:, i, j], b.jones_matrix_t[:, i, j], scale=1)
    if not E.sym:
        E.eq("R", a.R, b.R, scale=1)
        E.eq("T", a.T, b.T, scale=1)


@harness("C01", n=100)
def interface_absorbing_front(E):
    absorbing_front(E, 0)


@harness("C01", n=100, sym=False)
def layers_absorbing_front(E):
    absorbing_front(E, E.choose("layers", [1, 2, 4]))


def stack(E, L):
    m = E.m
    d, lb, th, nf, nb, ns, ds, s = setup(E, L)
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    cosine(E, nf, th, nb, "exit")
    a = s.evaluate(lb, th, solver=Solver2x2)
    for n in ns:
        # the layer's propagator is an even function of its normal wave number
        E.square_hint(n * m.csqrt(1 - (nf * m.sin(m.deg2rad(th)) / n) ** 2))
    prop = PropagatorExpm() if E.sym else E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig()])
    b = s.evaluate(lb, th, solver=Solver4x4, propagator=prop)
    if not E.sym:
        E.assume(np.all(np.isfinite(b.jones_matrix_r)))
    for i in range(2):
        for j in range(2):
            E.eq(f"r{i}{j}", a.jones_matrix_r[:, i, j], b.jones_matrix_r[:, i, j], scale=1)
            E.eq(f"t{i}{j}", a.jones_matrix_t[:, i, j], b.jones_matrix_t[:, i, j], scale=1)


@harness("C01", n=60, bounded="one layer")
def one_layer(E):
    stack(E, 1)


def continuity(E, L):
    """the coefficients of the 2x2 solver satisfy the continuity equations whose solution the 4x4 solver returns (C03),
    with the exact propagators (C04)"""
    m = E.m
    d, lb, th, nf, nb, ns, ds, s = setup(E, L)
    kx = nf * m.sin(m.deg2rad(th))
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    cosine(E, nf, th, nb, "exit")
    a = s.evaluate(lb, th, solver=Solver2x2)
    for n in ns:
        E.square_hint(n * m.csqrt(1 - (kx / n) ** 2))

    def tensor(n):
        return medium(n).get_tensor(lb)
    M = Solver4x4.transition_matrix_iso_halfspace(kx, tensor(nb))
    for n, t in reversed(list(zip(ns, ds))):
        D = Solver4x4.build_delta_matrix(kx, tensor(n))
        M = m.matmul(m.expm(D * (-2j * np.pi * t / lb)[:, None, None]), M)
    M = m.matmul(Solver4x4.transition_matrix_iso_halfspace(kx, tensor(nf), inv=True), M)
    if not E.sym:
        E.assume(np.all(np.isfinite(M)))
    r, t = a.jones_matrix_r, a.jones_matrix_t
    E.eq("incident p wave", M[:, 2, 2] * t[:, 0, 0], 1 + 0 * r[:, 0, 0], scale=1)
    E.eq("reflected p wave", M[:, 3, 2] * t[:, 0, 0], r[:, 0, 0], scale=1)
    E.eq("incident s wave", M[:, 0, 0] * t[:, 1, 1], 1 + 0 * r[:, 0, 0], scale=1)
    E.eq("reflected s wave", M[:, 1, 0] * t[:, 1, 1], r[:, 1, 1], scale=1)
    for i, j in ((0, 2), (2, 0), (1, 2), (3, 0)):
        E.eq(f"no conversion {i}{j}", M[:, i, j], 0 * r[:, 0, 0], atol=1e-9)
    for i, j in ((0, 1), (1, 0)):
        E.eq(f"r{i}{j} = 0", r[:, i, j], 0 * r[:, 0, 0], atol=1e-12)
        E.eq(f"t{i}{j} = 0", t[:, i, j], 0 * r[:, 0, 0], atol=1e-12)


@harness("C01", n=60, bounded="two layers", weight=2)
def continuity_two_layers(E):
    continuity(E, 2)


@harness("C01", n=60, sym=False)
def continuity_three_layers(E):
    continuity(E, 3)


@harness("C01", n=80, sym=False)
def many_layers(E):
    stack(E, E.choose("layers", [2, 3, 4, 7]))


@harness("C01", n=60)
def power(E):
    """reflectances and transmittances of both solvers"""
    m = E.m
    d, lb, th, nf, nb, ns, ds, s = setup(E, 0)
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    c = cosine(E, nf, th, nb, "exit")
    E.root_hint(nb * c)
    E.root_hint(nf * cf)
    a = s.evaluate(lb, th, solver=Solver2x2)
    b = s.evaluate(lb, th, solver=Solver4x4)
    E.eq("power correction", a.T_matrix[:, 1, 1], b.T_matrix[:, 1, 1], scale=1)
    E.eq("R", a.R, b.R, scale=1)
    E.eq("T", a.T, b.T, scale=1)


def angle(x):
    """the angle whose sine is x, complex where needed"""
    from numpy.lib import scimath
    from ..shims import replacement_map
    return replacement_map()[id(scimath.arcsin)](x)


class AnyLayers(elli.Structure):
    """any number (at least one) of isotropic layers between two media; the solver asking gets them as a list of arbitrary
    length (Solver2x2) or as a segment of a profile (Solver4x4)"""

    def __init__(self, E, d, lb, th, nf, nb, n, fam):
        super().__init__(medium(nf), [], medium(nb))
        self.E, self.lb, self.n, self.fam = E, lb, n, fam
        self.nf, self.nb = nf, nb
        self.kx = nf * E.m.sin(E.m.deg2rad(th))
        self.seg = None

    def __deepcopy__(self, memo):
        return self

    def get_permittivity_profile(self, lbda):
        E = self.E
        ends = [(np.inf, medium(x).get_tensor(lbda)) for x in (self.nf, self.nb)]
        if self.seg is not None:
            return Profile([ends[0], self.seg, ends[1]])
        n, fam = self.n, self.fam

        def at(k):
            if eq(k, 0):
                return ends[0]
            if eq(k, add(n, 1)):
                return ends[1]
            t, x = fam.at(sub(k, 1))
            return t, medium(x).get_tensor(lbda)

        r = Sequence(add(n, 2), at)
        r.family = fam
        return r


class Waves:
    """contract of the loop of Solver2x2: after k layers the matrix of each polarisation takes the waves in the medium behind
    them to the waves in the front medium: M = B(front)^-1 G B(behind), G the product of the propagators of the k layers (C04) for
    the tangential fields, B the fields of a forward and a backward wave"""

    def __init__(self, s, c0, cb, cos):
        self.s, self.c0, self.cb, self.cos = s, c0, cb, cos
        self.E = s.E
        self.d = s.E.dim("N")
        self.X = {}

    def base(self, pol, n, c):
        """2 x 2 list: columns are the waves, rows Ey, Hx (s) or Ex, Hy (p)"""
        return [[1 + 0 * n, 1 + 0 * n], [-n * c, n * c]] if pol == "s" else [[c, -c], [n, n]]

    def inverse(self, pol, n, c):
        if pol == "s":
            return [[0.5 + 0 * n, -0.5 / (n * c)], [0.5 + 0 * n, 0.5 / (n * c)]]
        return [[0.5 / c, 0.5 / n], [-0.5 / c, 0.5 / n]]

    @staticmethod
    def mul(a, b):
        return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in range(2)] for i in range(2)]

    def behind(self, k):
        """the medium behind k layers"""
        s = self.s
        if eq(k, s.n):
            return s.nb, self.cb
        x = s.fam.at(k)[1]
        return x, self.cos(x)

    def propagator(self, k):
        m, s = self.E.m, self.s
        t, x = s.fam.at(k)
        self.E.square_hint(x * self.cos(x))
        D = Solver4x4.build_delta_matrix(s.kx, medium(x).get_tensor(s.lb))
        return m.expm(D * (-2j * np.pi * t / s.lb)[:, None, None])

    BLOCK = {"s": (1, 2), "p": (0, 3)}

    def ghost(self, pol):
        return [[self.E.carray(f"G{pol}{i}{j}", (self.d,)) for j in range(2)] for i in range(2)]

    def start(self, pol):
        n, c = self.behind(0)
        return self.mul(self.inverse(pol, self.s.nf, self.c0), self.base(pol, n, c))

    def role(self, entry):
        for pol in "sp":
            if entry.ndim == 3 and entry.shape[:2] == (2, 2) and alike([entry], [self.E.m.array(self.start(pol))]):
                return pol
        raise Unsupported("the loop of Solver2x2 carries something else than the two transfer matrices")

    def state(self, entries, k):
        out = []
        for pol in map(self.role, entries):
            if eq(k, self.s.n):
                w = self.mul(self.mul(self.inverse(pol, self.s.nf, self.c0), self.ghost(pol)), self.base(pol, self.s.nb, self.cb))
            else:
                w = self.X[pol] = [[self.E.carray(f"M{pol}{i}{j}", (self.d,)) for j in range(2)] for i in range(2)]
                self.k = k
            out.append(self.E.m.array(w))
        return out

    def check(self, entries, values, k):
        E = self.E
        roles = [self.role(x) for x in entries]
        E.true("one matrix for each polarisation", sorted(roles) == ["p", "s"])
        for pol, v in zip(roles, values):
            if isinstance(k, int):
                w, what = self.start(pol), "before the first layer"
            else:
                Q = self.propagator(self.k)
                x = self.s.fam.at(self.k)[1]
                a, b = self.BLOCK[pol]
                q = [[Q[:, i, j] for j in (a, b)] for i in (a, b)]
                for i in (a, b):
                    for j in set(range(4)) - {a, b}:
                        E.eq("no conversion in an isotropic layer", Q[:, i, j], 0 * x)
                w = self.mul(self.X[pol], self.mul(self.inverse(pol, x, self.cos(x)), self.mul(q, self.base(pol, *self.behind(k)))))
                what = "after one more layer"
            for i in range(2):
                for j in range(2):
                    E.eq(f"{pol} waves {what}", v[i, j], w[i][j])


@harness("C01", n=60)
def any_number_of_layers(E):
    """both solvers on any number of layers, by the invariants of their loops"""
    m = E.m
    if not E.sym:
        stack(E, E.choose("layers", [1, 2, 3, 5]))
        return
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th = E.real("theta", 0.0, 89.0)
    E.trig_atoms(m.deg2rad(th))
    nf, nb = index(E, "nf", d, False), index(E, "nb", d)
    n = E.integer("n", 1, None)
    fam = Family(n, lambda j: (E.real(f"d{j}", 0.0, 100.0), index(E, f"n{j}", d)))
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    E.lemma("incidence below 90 degrees", cf > 0)
    cb = cosine(E, nf, th, nb, "exit")
    s = AnyLayers(E, d, lb, th, nf, nb, n, fam)
    w = Waves(s, cf, cb, lambda x: m.cos(angle(s.kx / x)))
    Hooks.loop = LoopRule(E, w)
    a = s.evaluate(lb, th, solver=Solver2x2)
    Hooks.loop = None
    g = {p: w.ghost(p) for p in "sp"}
    z = 0 * nf
    G = m.moveaxis(m.array([[g["p"][0][0], z, z, g["p"][0][1]], [z, g["s"][0][0], g["s"][0][1], z],
                            [z, g["s"][1][0], g["s"][1][1], z], [g["p"][1][0], z, z, g["p"][1][1]]]), 2, 0)

    def slice_(tag):
        t, x = fam.at(0)
        return t, medium(x).get_tensor(lb)
    s.seg = Segment(E, "layers", d, slice_)
    s.seg.prop, s.seg.kx, s.seg.lb = PropagatorExpm(), s.kx, lb
    s.seg.ghosts = {"b": G, "f": G}
    b = s.evaluate(lb, th, solver=Solver4x4, propagator=s.seg.prop)
    for i in range(2):
        for j in range(2):
            E.eq(f"r{i}{j}", a.jones_matrix_r[:, i, j], b.jones_matrix_r[:, i, j], scale=1)
            E.eq(f"t{i}{j}", a.jones_matrix_t[:, i, j], b.jones_matrix_t[:, i, j], scale=1)
