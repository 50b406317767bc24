"""C03 the 4x4 solver solves Maxwell's equations for the stack"""
import numpy as np

import elli
from elli.solver4x4 import Solver4x4
from ..engine import harness
from ..sym import Unsupported
from ..stack import Stack, Segment, propagator, modes
from .common import Given
from .c01 import index, medium, cosine
from .c14 import GivenMaterial

EXPM = "P = exp(-2 pi i d Delta / lambda) for the propagators the solver is used with (C04)"
TEN = ((-6.0, 6.0), (-1.0, 6.0))


def tensor(E, name, d, passive=True):
    """an arbitrary permittivity tensor with e_zz not zero"""
    t = E.carray(name, (d, 3, 3), *TEN)
    E.assume(E.m.abs(t[:, 2, 2]) > 0.2)
    return t


def apply(E, A, v):
    """A @ v for a list of components v"""
    return [sum(A[:, i, j] * v[j] for j in range(len(v))) for i in range(A.shape[1])]


@harness("C03", n=60)
def berreman(E):
    """curl E = i k0 H, curl H = -i k0 eps E with fields ~ exp(i k0 kx x), k0 = 1"""
    d = E.dim("N")
    kx = E.carray("kx", (d,), (-3.0, 3.0), (-1.0, 1.0), special=(0, 1))
    e = tensor(E, "eps", d)
    D = Solver4x4.build_delta_matrix(kx, e)
    Ex, Ey, Hx, Hy = psi = [E.carray(n, (d,), (-1.0, 1.0), (-1.0, 1.0)) for n in ("Ex", "Ey", "Hx", "Hy")]
    # the z components follow from the two equations without z derivatives
    Ez = -(kx * Hy + e[:, 2, 0] * Ex + e[:, 2, 1] * Ey) / e[:, 2, 2]
    Hz = kx * Ey
    Dx, Dy, Dz = apply(E, e, [Ex, Ey, Ez])
    E.eq("z component of curl H", kx * Hy, -Dz, scale=1)
    got = apply(E, D, psi)
    E.eq("dEx/dz = i(Hy + kx Ez)", got[0], Hy + kx * Ez, scale=1)
    E.eq("dEy/dz = -i Hx", got[1], -Hx, scale=1)
    E.eq("dHx/dz = i(kx Hz - Dy)", got[2], kx * Hz - Dy, scale=1)
    E.eq("dHy/dz = i Dx", got[3], Dx, scale=1)
    E.true("shape", D.shape[1:] == (4, 4))


def incidence(E, d):
    m = E.m
    th = E.real("theta", 0.0, 89.0, special=(0, 30, 45, 60))
    E.trig_atoms(m.deg2rad(th))
    nf = index(E, "nf", d, False)
    cf = m.cos(m.deg2rad(th))
    E.root_hint(cf)
    if E.sym:
        E.lemma("incidence below 90 degrees", cf > 0)
    return th, nf, cf, nf * m.sin(m.deg2rad(th))


@harness("C03", n=80)
def isotropic_half_space(E):
    m = E.m
    d = E.dim("N")
    th, nf, cf, kx = incidence(E, d)
    n = index(E, "n", d)
    c = cosine(E, nf, th, n, "exit")
    eps = (n ** 2)[:, None, None] * np.eye(3)
    B = Solver4x4.transition_matrix_iso_halfspace(kx, eps)
    W = modes(E, n, c, d)
    E.eq("waves s+, s-, p+, p-", B, W, scale=1)
    D = Solver4x4.build_delta_matrix(kx, eps)
    for j, (name, q) in enumerate((("s+", n * c), ("s-", -n * c), ("p+", n * c), ("p-", -n * c))):
        v = [B[:, i, j] for i in range(4)]
        for i, (got, x) in enumerate(zip(apply(E, D, v), v)):
            E.eq(f"{name} is a plane wave", got, q * x, scale=1)
    E.true("+ waves decay or travel away from the stack", (m.imag(n * c) > -1e-12) & (m.real(n * c) > -1e-12))
    E.assume(m.abs(c) > 1e-3)
    inv = Solver4x4.transition_matrix_iso_halfspace(kx, eps, inv=True)
    E.eq("inverse", m.matmul(inv, B), np.eye(4) + 0 * B, scale=1)


def stack(E, d):
    m = E.m
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    th, nf, cf, kx = incidence(E, d)
    nb = index(E, "nb", d)
    return lb, th, nf, cf, kx, nb


def slice_(E, d):
    def f(tag):
        t = tensor(E, "eps " + tag, d)
        return E.real("d " + tag, 0.0, 60.0, special=(0, 10)), t
    return f


def matched(E, d, lb, th, nf, cf, kx, seg, back, tb, B):
    """F (incident + reflected) = (propagators of all layers) B (transmitted), any number of slices"""
    m = E.m
    seg.prop, seg.kx, seg.lb = propagator(E, d), kx, lb
    F = medium(nf)
    s = Stack(F, F.get_tensor(lb), [seg], back, tb)
    res = s.evaluate(lb, th, solver=Solver4x4, propagator=seg.prop)
    if E.sym:
        G = seg.ghost("b")
    else:
        G = np.eye(4) + np.zeros((d, 4, 4), dtype=complex)
        for t, e in seg.draw():
            G = G @ m.expm((-2j * np.pi * t / lb)[:, None, None] * Solver4x4.build_delta_matrix(kx, e))
    r, t = res.jones_matrix_r, res.jones_matrix_t
    front = modes(E, nf + 0j, cf + 0 * nf, d)
    one, zero = 1 + 0 * r[:, 0, 0], 0 * r[:, 0, 0]
    if not E.sym:
        E.assume(bool(np.all(np.isfinite(G))) and np.max(np.abs(G)) < 1e5)
        E.assume(bool(np.all(np.isfinite(r))) and np.max(np.abs(r)) < 1e3 and np.max(np.abs(t)) < 1e3)
    scale = 1 if E.sym else max(1.0, float(np.max(np.abs(G)) * np.max(np.abs(B))))
    for pol, left, right in (("p", [zero, r[:, 1, 0], one, r[:, 0, 0]], [t[:, 1, 0], zero, t[:, 0, 0], zero]),
                             ("s", [one, r[:, 1, 1], zero, r[:, 0, 1]], [t[:, 1, 1], zero, t[:, 0, 1], zero])):
        a = apply(E, front, left)
        b = apply(E, G, apply(E, B, right))
        for name, x, y in zip(("Ex", "Ey", "Hx", "Hy"), a, b):
            E.eq(f"{pol} incident: {name} continuous", x, y, scale=scale)
    return res


@harness("C03", n=80, trusted=[EXPM])
def continuity(E):
    d = E.dim("N")
    lb, th, nf, cf, kx, nb = stack(E, d)
    c = cosine(E, nf, th, nb, "exit")
    back = medium(nb)
    matched(E, d, lb, th, nf, cf, kx, Segment(E, "layers", d, slice_(E, d)), back, back.get_tensor(lb), modes(E, nb, c, d))


@harness("C03", n=80, trusted=[EXPM])
def continuity_anisotropic_back(E):
    """the half-space matrix of an anisotropic exit medium is used by its contract (anisotropic_half_space)"""
    d = E.dim("N")
    lb, th, nf, cf, kx, nb = stack(E, d)
    tb = crystal(E, "back", d, E.sym or E.choose("absorbing", [True, False]))
    real = Solver4x4.__dict__["transition_matrix_halfspace"]
    used = []
    if E.sym:
        B = E.carray("B", (d, 4, 4))
        D = Solver4x4.build_delta_matrix(kx, tb)

        def contract(delta):
            E.eq("half-space matrix of the exit medium's Berreman matrix", delta, D)
            used.append(1)
            return B
        Solver4x4.transition_matrix_halfspace = staticmethod(contract)
    else:
        B = Solver4x4.transition_matrix_halfspace(Solver4x4.build_delta_matrix(kx, tb))
        E.assume(bool(np.all(np.isfinite(B))) and np.max(np.abs(B)) < 1e3)
    try:
        res = matched(E, d, lb, th, nf, cf, kx, Segment(E, "layers", d, slice_(E, d)), GivenMaterial(tb), tb, B)
    finally:
        Solver4x4.transition_matrix_halfspace = real
    if E.sym and not used:
        raise Unsupported("the half-space matrix is not used through its contract")


def crystal(E, name, d, absorbing):
    """R diag(e) R^T with an arbitrary rotation, passive"""
    m = E.m
    if E.sym:
        return tensor(E, name, d)
    from scipy.spatial.transform import Rotation
    e = E.rarray(name + ".re", (d, 3), 1.2, 9.0)
    k = E.rarray(name + ".im", (d, 3), 0.05, 4.0) if absorbing else 0 * e
    e, k = e + 0, k + 0
    if E.choose(name + " class", ["biaxial", "uniaxial"]) == "uniaxial":
        e[:, 1], k[:, 1] = e[:, 0], k[:, 0]
    if E.choose(name + " axes", ["any", "any", "along x, y, z"]) != "any":
        # the crystal axes are the coordinate axes, in any order
        o = E.choose(name + " order", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
        return (e + 1j * k)[:, o][:, :, None] * np.eye(3)
    R = Rotation.from_euler("ZXZ", [E.real(name + a, 0.0, 180.0, special=(0, 90)) for a in "pnr"], degrees=True).as_matrix()
    return R @ ((e + 1j * k)[:, :, None] * R.T)


def forward(m, q):
    return (m.imag(q) > 1e-10) | ((m.abs(m.imag(q)) <= 1e-10) & (m.real(q) > 0))


@harness("C03", n=200, maxpaths=400)
def anisotropic_half_space(E):
    m = E.m
    d = E.dim("N")
    kx = E.rarray("kx", (d,), 0.0, 1.0, special=(0,))
    e = crystal(E, "eps", d, E.sym or E.choose("absorbing", [True, False]))
    E.lazy_splits()
    D = Solver4x4.build_delta_matrix(kx, e)
    q, W = m.linalg_eig(D)
    if E.sym:
        for k in range(4):
            E.assume((m.imag(q[:, k]) == 0) | (m.abs(m.imag(q[:, k])) > 1e-6))
        f = [m.where(forward(m, q[:, k]), 1, 0) for k in range(4)]
        E.assume(f[0] + f[1] + f[2] + f[3] == 2)
    p = Solver4x4.transition_matrix_halfspace(D)
    if not E.sym:
        E.assume(bool(np.all(np.isfinite(p))))
    lam = []
    for j in range(4):
        v = [p[:, i, j] for i in range(4)]
        if E.sym:
            l = next((q[:, k] for k in range(4) if all(
                E.run.quick_zero((v[a] * W[:, b, k] - v[b] * W[:, a, k]).a.flat[0]) for a in range(4) for b in range(a))), None)
            if l is None:
                raise Unsupported("column is not recognised as an eigenvector")
        else:
            l = np.einsum("ni,nij,nj->n", p[:, :, j].conj(), D, p[:, :, j]) / np.einsum("ni,ni->n", p[:, :, j].conj(), p[:, :, j])
        lam.append(l)
        s = 1 if E.sym else float(np.max(np.abs(p)))
        for got, x in zip(apply(E, D, v), v):
            E.eq("columns are plane waves", got, l * x, scale=s)
    for j in range(4):
        E.true("columns 0 and 2 leave the stack, 1 and 3 enter it", forward(m, lam[j]) if j in (0, 2) else ~forward(m, lam[j]))
    tol = 0 if E.sym else 1e-9
    for s_, p_ in ((0, 2), (1, 3)):
        if E.sym:
            # compare before normalisation: a common factor per column of modulus one, then one for the matrix
            continue
        E.true("s before p", m.abs(p[:, 1, s_]) >= m.abs(p[:, 1, p_]) - tol)
