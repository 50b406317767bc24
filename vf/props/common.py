"""helpers shared by the contracts"""
import numpy as np

import elli
from elli.result import Result

JS = (0, 1, -1, 1j, -1j, 0.5, -0.5, 0.3 - 0.4j)
BOX = ((-2.0, 2.0), (-2.0, 2.0))


def bare_experiment(lbda, theta=60.0, vector=None):
    s = elli.Structure(elli.AIR, [], elli.AIR)
    return elli.Experiment(s, lbda, theta, vector)


def jones(E, name, d, nz_ss=True):
    """a (N,2,2) array of arbitrary complex entries with a non-zero ss element"""
    J = E.carray(name, (d, 2, 2), *BOX, special=JS)
    if nz_ss:
        E.assume(E.m.abs(J[:, 1, 1]) > 1e-2)
    return J


def result(E, dim="N", vector=None, power=False, sizes=None, tag=""):
    d = E.dim(dim, 1, sizes)
    lb = E.rarray("lbda" + tag, (d,), 150.0, 3000.0, axis=True)
    Jr = jones(E, "Jr" + tag, d)
    Jt = jones(E, "Jt" + tag, d)
    pc = E.rarray("pc" + tag, (d,), 0.0, 4.0) if power else None
    ex = bare_experiment(lb, 60.0, vector)
    if pc is None:
        return Result(ex, Jr, Jt), Jr, Jt, None, ex
    return Result(ex, Jr, Jt, pc), Jr, Jt, pc, ex


class Given(elli.dispersions.base_dispersion.Dispersion):
    """a dispersion with arbitrary values: contract of dielectric_function is 'one complex number per wavelength'"""
    single_params_template: dict = {}
    rep_params_template: dict = {}

    def __init__(self, vals):
        super().__init__()
        self.vals = vals

    def dielectric_function(self, lbda):
        return self.vals


class GivenIndex(elli.dispersions.base_dispersion.IndexDispersion):
    single_params_template: dict = {}
    rep_params_template: dict = {}

    def __init__(self, vals):
        super().__init__()
        self.vals = vals

    def refractive_index(self, lbda):
        return self.vals


EPS = ((-20.0, 20.0), (-2.0, 20.0))


def eps_array(E, name, d, special=(1, 2.25, 1 + 0j, 0, -4)):
    return E.carray(name, (d,), *EPS, special=special)
