"""C13 rotation helpers"""
import numpy as np

import elli
from elli.utils import rotation_euler, rotation_v, rotation_v_theta
from ..engine import harness


def Rz(m, a):
    c, s = m.cos(m.deg2rad(a)), m.sin(m.deg2rad(a))
    return m.array([[c, -s, 0 * c], [s, c, 0 * c], [0 * c, 0 * c, 1 + 0 * c]])


def Rx(m, a):
    c, s = m.cos(m.deg2rad(a)), m.sin(m.deg2rad(a))
    return m.array([[1 + 0 * c, 0 * c, 0 * c], [0 * c, c, -s], [0 * c, s, c]])


def Ry(m, a):
    c, s = m.cos(m.deg2rad(a)), m.sin(m.deg2rad(a))
    return m.array([[c, 0 * c, s], [0 * c, 1 + 0 * c, 0 * c], [-s, 0 * c, c]])


I3 = np.eye(3)


def proper(E, tag, R):
    m = E.m
    E.eq(f"{tag}:orthogonal", m.matmul(R, m.transpose(R)), I3, atol=1e-9)
    E.eq(f"{tag}:det", m.det(R), 1.0)
    E.eq(f"{tag}:real", m.imag(R), np.zeros((3, 3)), atol=1e-12)


@harness("C13", n=60)
def euler(E):
    m = E.m
    p, n, r = E.angle("p"), E.angle("n", 0.0, 180.0), E.angle("r")
    R = rotation_euler(p, n, r)
    proper(E, "euler", R)
    E.eq("euler:product", R, m.matmul(m.matmul(Rz(m, p), Rx(m, n)), Rz(m, r)), atol=1e-9)
    E.eq("euler:inverse", m.matmul(R, rotation_euler(-r, -n, -p)), I3, atol=1e-9)


@harness("C13", n=20)
def euler_axes(E):
    m = E.m
    a, b = E.angle("a", -720.0, 720.0), E.angle("b", -720.0, 720.0)
    E.eq("z first", rotation_euler(a, 0, 0), Rz(m, a), atol=1e-9)
    E.eq("x", rotation_euler(0, a, 0), Rx(m, a), atol=1e-9)
    E.eq("z last", rotation_euler(0, 0, a), Rz(m, a), atol=1e-9)
    E.eq("add z", m.matmul(rotation_euler(a, 0, 0), rotation_euler(b, 0, 0)), rotation_euler(a + b, 0, 0), atol=1e-9)
    E.eq("add x", m.matmul(rotation_euler(0, a, 0), rotation_euler(0, b, 0)), rotation_euler(0, a + b, 0), atol=1e-9)


def unit(E):
    """a unit vector by stereographic parameters (all but one point), exactly normalised"""
    u, v = E.real("u", -4.0, 4.0, special=(0.0, 1.0)), E.real("v", -4.0, 4.0, special=(0.0, 1.0))
    perm = E.choose("perm", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    sg = E.choose("sign", [1, -1])
    d = 1 + u ** 2 + v ** 2
    c = [2 * u / d, 2 * v / d, sg * (1 - u ** 2 - v ** 2) / d]
    w = [None] * 3
    for i, j in enumerate(perm):
        w[j] = c[i]
    return w


@harness("C13", n=60)
def v_theta(E):
    m = E.m
    w = unit(E)
    t, t2 = E.angle("t", -720.0, 720.0), E.angle("t2", -720.0, 720.0)
    form = E.choose("form", ["list", "array"])
    v = w if form == "list" else m.array(w)
    R = rotation_v_theta(v, t)
    proper(E, "vtheta", R)
    E.eq("vtheta:inverse", m.matmul(R, rotation_v_theta(v, -t)), I3, atol=1e-9)
    E.eq("vtheta:add", m.matmul(R, rotation_v_theta(v, t2)), rotation_v_theta(v, t + t2), atol=1e-9)
    wv = m.array(w)
    E.eq("vtheta:axis", m.matmul(R, wv), wv, atol=1e-9)
    # Rodrigues: R x = x cos t + (v cross x) sin t + v (v.x)(1-cos t), right-handed
    x = m.array([E.real("x0", -2.0, 2.0), E.real("x1", -2.0, 2.0), E.real("x2", -2.0, 2.0)])
    ct, st = m.cos(m.deg2rad(t)), m.sin(m.deg2rad(t))
    cr = m.array([w[1] * x[2] - w[2] * x[1], w[2] * x[0] - w[0] * x[2], w[0] * x[1] - w[1] * x[0]])
    vx = w[0] * x[0] + w[1] * x[1] + w[2] * x[2]
    E.eq("vtheta:right-handed", m.matmul(R, x), x * ct + cr * st + wv * (vx * (1 - ct)), scale=1)


@harness("C13", n=20)
def v_theta_axes(E):
    m = E.m
    a = E.angle("a", -720.0, 720.0)
    E.eq("x", rotation_v_theta(elli.E_X if hasattr(elli, "E_X") else [1, 0, 0], a), Rx(m, a), atol=1e-9)
    E.eq("y", rotation_v_theta([0, 1, 0], a), Ry(m, a), atol=1e-9)
    E.eq("z", rotation_v_theta((0, 0, 1), a), Rz(m, a), atol=1e-9)


@harness("C13", n=60)
def v_exp(E):
    m = E.m
    w = unit(E)
    t = E.real("t", -6.0, 6.0, special=(0.0, 1.0, np.pi))
    t2 = E.real("t2", -6.0, 6.0)
    E.square_hint(t)
    E.square_hint(t2)
    E.square_hint(t + t2)
    v = m.array([t * c for c in w])
    R = rotation_v(v)
    proper(E, "v", R)
    E.eq("v:inverse", m.matmul(R, rotation_v(-v)), I3, atol=1e-9)
    E.eq("v:theta", R, rotation_v_theta(w, m.rad2deg(t)), atol=1e-9)
    E.eq("v:add", m.matmul(R, rotation_v(m.array([t2 * c for c in w]))),
         rotation_v(m.array([(t + t2) * c for c in w])), atol=1e-9)


@harness("C13", n=20)
def v_axes(E):
    m = E.m
    a = E.real("a", -6.0, 6.0)
    z = 0 * a
    E.eq("x", rotation_v([a, z, z]), Rx(m, m.rad2deg(a)), atol=1e-9)
    E.eq("y", rotation_v([z, a, z]), Ry(m, m.rad2deg(a)), atol=1e-9)
    E.eq("z", rotation_v(m.array([z, z, a])), Rz(m, m.rad2deg(a)), atol=1e-9)
