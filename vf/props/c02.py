"""C02 energy is conserved in lossless stacks and never created in passive ones"""
import numpy as np

import elli
from elli.solver2x2 import Solver2x2
from elli.solver4x4 import Solver4x4
from ..engine import harness
from ..sym import Unsupported
from ..stack import Stack, Segment, propagator, modes
from .common import Given
from .c01 import index, medium
from .c03 import apply, incidence, tensor

LYAP = ("d/ds (exp(sA)^H J exp(sA)) = exp(sA)^H (A^H J + J A) exp(sA): conserved if A^H J + J A = 0, and growing with s if it is "
        "positive semidefinite; sums and congruences of positive semidefinite matrices are positive semidefinite")
# power flux (z component of the Poynting vector, times 4): Ex Hy* - Ey Hx* + c.c.
J = np.array([[0, 0, 0, 1], [0, 0, -1, 0], [0, -1, 0, 0], [1, 0, 0, 0]])


def flux(m, a, b):
    """a^H J b"""
    c = m.conj
    return c(a[0]) * b[3] - c(a[1]) * b[2] - c(a[2]) * b[1] + c(a[3]) * b[0]


@harness("C02", n=80, trusted=[LYAP])
def layer(E):
    """power flux is lost only through the absorbing part of the tensor"""
    m = E.m
    d = E.dim("N")
    kx = E.rarray("kx", (d,), 0.0, 4.0, special=(0, 1))
    e = tensor(E, "eps", d)
    D = Solver4x4.build_delta_matrix(kx, e)
    u, v = ([E.carray(f"{w}{n}", (d,), (-1.0, 1.0), (-1.0, 1.0)) for n in ("Ex", "Ey", "Hx", "Hy")] for w in "uv")

    def field(w):
        return [w[0], w[1], -(kx * w[3] + e[:, 2, 0] * w[0] + e[:, 2, 1] * w[1]) / e[:, 2, 2]]
    Eu, Ev = field(u), field(v)
    # i (D^H J - J D), with A = -2 pi i d/lambda Delta the change of the flux along the layer
    lhs = 1j * (flux(m, apply(E, D, u), v) - flux(m, u, apply(E, D, v)))
    rhs = sum(m.conj(Eu[i]) * (e[:, i, j] - m.conj(e[:, j, i])) / 1j * Ev[j] for i in range(3) for j in range(3))
    E.eq("flux lost in a layer = E^H (eps - eps^H)/i E", lhs, rhs, scale=1)


@harness("C02", n=80)
def exact_flux(E):
    """real symmetric tensors: the Berreman matrix is J-selfadjoint, so the propagators conserve the flux"""
    m = E.m
    d = E.dim("N")
    kx = E.rarray("kx", (d,), 0.0, 4.0, special=(0, 1))
    t = E.rarray("eps", (d, 6), -6.0, 6.0)
    e = m.array([[t[:, 0], t[:, 1], t[:, 2]], [t[:, 1], t[:, 3], t[:, 4]], [t[:, 2], t[:, 4], t[:, 5]]])
    e = m.moveaxis(e, 2, 0)
    E.assume(m.abs(t[:, 5]) > 0.2)
    D = Solver4x4.build_delta_matrix(kx, e)
    JD = m.matmul(J + 0j, D)
    E.eq("J Delta is Hermitian", JD, m.conj(m.swapaxes(JD, 1, 2)), scale=1)


def real_tensor(E, name, d, absorbing=False):
    """samples: a crystal in any orientation"""
    from scipy.spatial.transform import Rotation
    kind = E.choose(name + ".kind", ["isotropic", "biaxial", "metal"])
    e = E.rarray(name + ".re", (d, 3), 1.05, 9.0)
    if kind == "isotropic":
        e = np.repeat(e[:, :1], 3, axis=1)
    if kind == "metal":
        e = -np.repeat(e[:, :1], 3, axis=1)
    if absorbing:
        e = e + 1j * E.rarray(name + ".im", (d, 3), 0.0, 4.0)
    R = Rotation.from_euler("ZXZ", [E.real(name + a, 0.0, 180.0, special=(0, 90)) for a in "pnr"], degrees=True).as_matrix()
    return R @ (e[:, :, None] * R.T) + 0j


def energy(E, absorbing):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th, nf, cf, kx = incidence(E, d)
    nb = E.rarray("nb", (d,), 1.0, 4.0, special=(1, 1.5, 3))
    E.root_hint(nb)
    c = m.csqrt(1 - (kx / nb) ** 2)
    E.root_hint(nb * c)
    E.root_hint(nf * cf)
    arg = 1 - (kx / nb) ** 2
    case = E.choose("exit wave", ["travelling", "evanescent"]) if E.sym else None
    if E.sym:
        E.assume(arg > 0 if case == "travelling" else arg < 0)
        if case == "travelling":
            E.lemma("travelling wave", m.real(nb * c) > 0)
            E.lemma("real wave number", m.imag(c) == 0)
        else:
            E.lemma("decaying wave", m.imag(nb * c) > 0)
            E.lemma("imaginary wave number", m.real(c) == 0)
    else:
        E.assume(np.all(np.abs(arg) > 1e-6))

    def slice_(tag):
        if E.sym:
            return E.real("d " + tag, 0.0, 60.0), tensor(E, "eps " + tag, d)
        return E.real("d " + tag, 0.0, 300.0, special=(0, 10)), real_tensor(E, "eps " + tag, d, absorbing)
    seg = Segment(E, "layers", d, slice_, fresh=True)
    seg.prop, seg.kx, seg.lb = propagator(E, d), kx, lb
    F, Bk = medium(nf), medium(nb)
    s = Stack(F, F.get_tensor(lb), [seg], Bk, Bk.get_tensor(lb))
    res = s.evaluate(lb, th, solver=Solver4x4, propagator=seg.prop)
    r, t, pc = res.jones_matrix_r, res.jones_matrix_t, res.power_corr if hasattr(res, "power_corr") else None
    R, T_ = res.R_matrix, res.T_matrix
    if not E.sym:
        E.assume(bool(np.all(np.isfinite(R))) and np.max(np.abs(r)) < 1e3)
        G = np.eye(4)
        for th_, e_ in seg.draw():
            G = G @ m.expm((-2j * np.pi * th_ / lb)[:, None, None] * Solver4x4.build_delta_matrix(kx, e_))
        # rounding errors grow with the evanescent fields
        E.assume(np.max(np.abs(G)) < 1e4 and np.max(np.abs(t)) < 1e3)
    return d, m, lb, th, nf, cf, kx, nb, c, seg, res, R, T_, r, t


@harness("C02", n=160, trusted=[LYAP])
def lossless(E):
    """state after the loop = G @ exit matrix with G^H J G = J (layer lemma), so the flux behind the front side,
    1 - R, equals the flux in the exit medium, T"""
    d, m, lb, th, nf, cf, kx, nb, c, seg, res, R, T_, r, t = energy(E, False)
    back = modes(E, nb + 0j, c, d)
    if E.sym:
        E.eq("exit matrix", seg.entry, back)
    for j, pol in ((0, "p"), (1, "s")):
        Rj, Tj = R[:, 0, j] + R[:, 1, j], T_[:, 0, j] + T_[:, 1, j]
        tau = [t[:, 1, j], 0 * t[:, 1, j], t[:, 0, j], 0 * t[:, 1, j]]
        w = apply(E, back, tau)
        E.eq(f"T = flux in the exit medium, {pol}", Tj, flux(m, w, w) / (4 * nf * cf) * 2, scale=1)
        if E.sym:
            g = apply(E, seg.state, tau)
            E.eq(f"1 - R = flux behind the front side, {pol}", 1 - Rj, flux(m, g, g) / (4 * nf * cf) * 2, scale=1)
        else:
            E.eq(f"R+T = 1, {pol}", Rj + Tj, 1 + 0 * Tj, scale=1)
            tir = nf * np.sin(np.deg2rad(th)) > nb
            E.eq(f"total reflection, {pol}", np.where(tir, Tj, 0), 0 * Tj, atol=1e-9)
            E.eq(f"total reflection is total, {pol}", np.where(tir, Rj, 1), 1 + 0 * Tj, scale=1)


@harness("C02", n=160, sym=False)
def passive(E):
    """absorbing layers: flux is lost (layer lemma with (eps - eps^H)/i positive semidefinite)"""
    d, m, lb, th, nf, cf, kx, nb, c, seg, res, R, T_, r, t = energy(E, True)
    for j, pol in ((0, "p"), (1, "s")):
        tot = R[:, 0, j] + R[:, 1, j] + T_[:, 0, j] + T_[:, 1, j]
        E.true(f"R+T <= 1, {pol}", bool(np.all(tot <= 1 + 1e-6)))
        E.true(f"R, T >= 0, {pol}", bool(np.all(R >= 0) and np.all(T_ >= -1e-12)))


def two_by_two(E, L):
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th, nf, cf, kx = incidence(E, d)
    nb = E.rarray("nb", (d,), 1.0, 4.0, special=(1, 1.5, 3))
    E.root_hint(nb)
    arg = 1 - (kx / nb) ** 2
    if E.sym:
        E.assume(arg > 0 if E.choose("exit wave", ["travelling", "evanescent"]) == "travelling" else arg < 0)
    else:
        E.assume(np.all(np.abs(arg) > 1e-6))
    layers = []
    for i in range(L):
        n = E.rarray(f"n{i}", (d,), 1.0, 4.0, special=(1, 1.5, 3))
        E.root_hint(n)
        if E.sym:
            E.assume(nf < n)
            E.square_hint(n * m.csqrt(1 - (kx / n) ** 2))
        layers.append(elli.Layer(medium(n), E.real(f"d{i}", 0.0, 100.0, special=(0, 10))))
    res = elli.Structure(medium(nf), layers, medium(nb)).evaluate(lb, th, solver=Solver2x2)
    if not E.sym:
        E.assume(bool(np.all(np.isfinite(res.R_matrix))) and np.max(np.abs(res.jones_matrix_t)) < 1e3)
    R, T_ = res.R_matrix, res.T_matrix
    for j, pol in ((0, "p"), (1, "s")):
        E.eq(f"R+T = 1, {pol}", R[:, 0, j] + R[:, 1, j] + T_[:, 0, j] + T_[:, 1, j], 1 + 0 * nf, scale=1)
    E.eq("R+T = 1", res.R + res.T, 1 + 0 * nf, scale=1)


@harness("C02", n=60)
def interface_2x2(E):
    two_by_two(E, 0)


@harness("C02", n=80, sym=False)
def many_layers_2x2(E):
    two_by_two(E, E.choose("layers", [1, 2, 3, 5]))
