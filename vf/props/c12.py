"""C12 material tensors"""
import numpy as np

import elli
from elli.utils import rotation_euler, rotation_v_theta, rotation_v
from ..engine import harness
from .common import Given, GivenIndex, eps_array, EPS


def use(m, lb):
    if lb is not None:
        m.get_tensor(lb)
        m.set_rotation(np.eye(3))
        m.get_tensor(lb)


def build(E, kind, ds, lb=None):
    """material and its three principal dispersions"""
    if kind == "isotropic":
        return elli.IsotropicMaterial(ds[0]), (0, 0, 0)
    if kind == "uniaxial":
        return elli.UniaxialMaterial(ds[0], ds[1]), (0, 0, 1)
    if kind == "biaxial":
        return elli.BiaxialMaterial(ds[0], ds[1], ds[2]), (0, 1, 2)
    if kind == "get_mat":
        return ds[0].get_mat(), (0, 0, 0)
    if kind == "isotropic reset":
        m = elli.IsotropicMaterial(ds[1])
        use(m, lb)
        m.set_dispersion(ds[0])
        return m, (0, 0, 0)
    if kind == "uniaxial reset":
        m = elli.UniaxialMaterial(ds[2], ds[2])
        use(m, lb)
        m.set_dispersion(ds[0], ds[1])
        return m, (0, 0, 1)
    m = elli.BiaxialMaterial(ds[1], ds[2], ds[0])
    use(m, lb)
    m.set_dispersion(ds[0], ds[1], ds[2])
    return m, (0, 1, 2)


KINDS = ["isotropic", "uniaxial", "biaxial", "get_mat", "isotropic reset", "uniaxial reset", "biaxial reset"]


def wavelengths(E, shape):
    """array or scalar wavelength with matching dielectric values"""
    if shape == "array":
        d = E.dim("N")
        return E.rarray("lbda", (d,), 150.0, 3000.0, axis=True), [eps_array(E, f"e{i}", d) for i in range(3)]
    return E.real("lbda", 150.0, 3000.0), [E.cplx(f"e{i}", *EPS) for i in range(3)]


def rotation(E, how):
    m = E.m
    if how == "matrix":
        return E.rarray("R", (3, 3), -1.0, 1.0)
    if how == "euler":
        return rotation_euler(E.angle("p"), E.angle("n"), E.angle("r"))
    # any unit axis
    a, b = m.deg2rad(E.angle("polar")), m.deg2rad(E.angle("azimuth"))
    axis = m.array([m.sin(a) * m.cos(b), m.sin(a) * m.sin(b), m.cos(a)])
    return rotation_v_theta(axis, E.angle("t"))


@harness("C12", n=90, maxpaths=600)
def tensor(E):
    m = E.m
    kind = E.choose("kind", KINDS)
    lb, es = wavelengths(E, E.choose("shape", ["array", "scalar"]))
    ds = [Given(es[0]), Given(es[1]), Given(es[2])]
    if E.choose("index", [False, True]):
        ds[1] = GivenIndex(es[1])
        es = [es[0], es[1] ** 2, es[2]]
    M, ix = build(E, kind, ds, lb if "reset" in kind and E.choose("used before", [False, True]) else None)
    ex, ey, ez = (es[i] for i in ix)
    rot = E.choose("rot", ["none", "matrix", "euler", "twice"])
    t0 = M.get_tensor(lb)
    if rot == "none":
        R = np.eye(3)
    else:
        R = rotation(E, "euler" if rot == "twice" else rot)
        if rot == "twice":
            M.set_rotation(rotation_v_theta([0, 1, 0], 33.0))
            M.get_tensor(lb)
        M.set_rotation(R)
    t = M.get_tensor(lb)
    D = (ex, ey, ez)
    for i in range(3):
        for j in range(3):
            w = 0
            for k in range(3):
                w = w + R[i, k] * D[k] * R[j, k]
            E.eq(f"eps {i}{j}", t[:, i, j], w, scale=20)
            E.eq(f"symmetric {i}{j}", t[:, i, j], t[:, j, i], scale=20)
            E.eq(f"unrotated {i}{j}", t0[:, i, j], D[i] if i == j else 0 * D[0], scale=20)
    E.true("three by three", t.shape[1:] == (3, 3))


@harness("C12", n=60)
def isotropic_invariant(E):
    lb, es = wavelengths(E, E.choose("shape", ["array", "scalar"]))
    M, ix = build(E, E.choose("kind", ["isotropic", "get_mat", "isotropic reset"]), [Given(e) for e in es])
    M.set_rotation(rotation(E, E.choose("rot", ["euler", "axis"])))
    t = M.get_tensor(lb)
    for i in range(3):
        for j in range(3):
            E.eq(f"eps {i}{j}", t[:, i, j], es[0] if i == j else 0 * es[0], scale=20)


@harness("C12", n=40)
def rotation_kept_by_new_dispersion(E):
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    es = [eps_array(E, f"e{i}", d) for i in range(3)]
    R = rotation(E, "matrix")
    kind = E.choose("kind", ["uniaxial", "biaxial"])
    M, ix = build(E, kind, [Given(es[2])] * 3)
    M.set_rotation(R)
    if kind == "uniaxial":
        M.set_dispersion(Given(es[0]), Given(es[1]))
        D = (es[0], es[0], es[1])
    else:
        M.set_dispersion(*[Given(e) for e in es])
        D = es
    t = M.get_tensor(lb)
    for i in range(3):
        for j in range(3):
            E.eq(f"eps {i}{j}", t[:, i, j], sum(R[i, k] * D[k] * R[j, k] for k in range(3)), scale=20)


@harness("C12", n=40)
def materials_are_separate(E):
    """rotating or changing one material does not touch another one"""
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), 150.0, 3000.0, axis=True)
    es = [eps_array(E, f"e{i}", d) for i in range(3)]
    ds = [Given(e) for e in es]
    kind = E.choose("kind", KINDS)
    A, ix = build(E, kind, ds)
    B, _ = build(E, E.choose("other", KINDS), ds)
    B.set_rotation(rotation(E, "euler"))
    t = A.get_tensor(lb)
    for i in range(3):
        for j in range(3):
            E.eq(f"eps {i}{j}", t[:, i, j], es[ix[i]] if i == j else 0 * es[0], scale=20)
    E.true("not rotated", not A.rotated)


@harness("C12", n=12)
def type_errors(E):
    import types
    d = elli.Cauchy(1.5)
    mat = elli.IsotropicMaterial(d)
    bads = [None, 1.5, "Cauchy", mat, [d], elli.Cauchy, np.array([1.5])]
    for k, bad in enumerate(bads):
        E.raises(f"isotropic {k}", TypeError, lambda: elli.IsotropicMaterial(bad))
        E.raises(f"isotropic set {k}", TypeError, lambda: elli.IsotropicMaterial(d).set_dispersion(bad))
        for pos in range(2):
            a = [d, d]
            a[pos] = bad
            E.raises(f"uniaxial {k}{pos}", TypeError, lambda: elli.UniaxialMaterial(*a))
        for pos in range(3):
            a = [d, d, d]
            a[pos] = bad
            E.raises(f"biaxial {k}{pos}", TypeError, lambda: elli.BiaxialMaterial(*a))
    mix = elli.VCAMaterial(mat, mat, 0.5)
    lay = elli.Layer(mat, 10)
    mbads = [None, 1.5, "air", d, lay, [mat], elli.IsotropicMaterial]
    for k, bad in enumerate(mbads):
        for c in (elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA):
            E.raises(f"{c.__name__} host {k}", TypeError, lambda: c(bad, mat, 0.5))
            E.raises(f"{c.__name__} guest {k}", TypeError, lambda: c(mat, bad, 0.5))
            E.raises(f"{c.__name__} set host {k}", TypeError, lambda: c(mat, mat, 0.5).set_constituents(bad, mat))
            E.raises(f"{c.__name__} set guest {k}", TypeError, lambda: c(mat, mat, 0.5).set_constituents(mat, bad))
        E.raises(f"layer {k}", TypeError, lambda: elli.Layer(bad, 10))
        E.raises(f"layer set {k}", TypeError, lambda: elli.Layer(mat, 10).set_material(bad))
        E.raises(f"twisted {k}", TypeError, lambda: elli.TwistedLayer(bad, 10, 3, 90))
        E.raises(f"varying {k}", TypeError, lambda: elli.VaryingMixtureLayer(bad, 10, 3))
        E.raises(f"front {k}", TypeError, lambda: elli.Structure(bad, [], mat))
        E.raises(f"back {k}", TypeError, lambda: elli.Structure(mat, [], bad))
    E.raises("varying layer needs a mixture", TypeError, lambda: elli.VaryingMixtureLayer(mat, 10, 3))
    lbads = [None, 1.5, "layer", d, mat, elli.Layer]
    for k, bad in enumerate(lbads):
        E.raises(f"structure layers {k}", TypeError, lambda: elli.Structure(mat, [lay, bad], mat))
        E.raises(f"structure layers not a list {k}", TypeError, lambda: elli.Structure(mat, bad, mat))
        E.raises(f"repeated layers {k}", TypeError, lambda: elli.RepeatedLayers([lay, bad], 2))
        E.raises(f"repeated layers not a list {k}", TypeError, lambda: elli.RepeatedLayers(bad, 2))
    # what is accepted
    E.true("accepted", elli.VaryingMixtureLayer(mix, 10, 3).material is mix and
           elli.Structure(mat, [lay, elli.RepeatedLayers([lay], 2)], mix).back_material is mix)
