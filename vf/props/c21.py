"""C21 unit conversions, quarter-wave thickness"""
import scipy.constants as sc

import elli
from elli import utils
from ..engine import harness

H = sc.value("Planck constant in eV/Hz")
C = sc.speed_of_light

PAIRS = {"energy": "conversion_wavelength_energy", "frequency": "conversion_wavelength_frequency",
         "wavenumber": "conversion_wavelength_wavenumber"}
VAL = {"energy": lambda x: C * H * 1e9 / x, "frequency": lambda x: C * 1e9 / x, "wavenumber": lambda x: 1e7 / x}


def _check(E, x, tag):
    for k, name in PAIRS.items():
        f = getattr(utils, name)
        y = f(x)
        E.eq(f"{tag}:value:{k}", y, VAL[k](x), rtol=1e-9)
        E.eq(f"{tag}:inverse:{k}", f(y), x, rtol=1e-9)
    e2f, f2e = utils.conversion_energy2frequency, utils.conversion_frequency2energy
    E.eq(f"{tag}:value:f2e", f2e(x), x * H, rtol=1e-9)
    E.eq(f"{tag}:value:e2f", e2f(x), x / H, rtol=1e-9)
    E.eq(f"{tag}:inverse:e2f-f2e", f2e(e2f(x)), x, rtol=1e-9)
    E.eq(f"{tag}:inverse:f2e-e2f", e2f(f2e(x)), x, rtol=1e-9)
    E.eq(f"{tag}:direct", f2e(utils.conversion_wavelength_frequency(x)), utils.conversion_wavelength_energy(x), rtol=1e-9)
    E.eq(f"{tag}:direct-e", utils.conversion_wavelength_frequency(e2f(x)), utils.conversion_wavelength_energy(x), rtol=1e-9)


@harness("C21", n=60)
def scalar(E):
    x = E.real("x", 1e-12, 1e18, special=(1.0, 1e7, 299792458.0))
    _check(E, x, "scalar")


@harness("C21", n=40)
def array(E):
    n = E.dim("N")
    x = E.rarray("x", (n,), 1e-3, 1e7, axis=True)
    _check(E, x, "array")


@harness("C21", n=30)
def array2d(E):
    n, m = E.dim("N"), E.dim("M")
    x = E.rarray("x", (n, m), 1e-3, 1e7)
    _check(E, x, "2d")


@harness("C21", n=60)
def quarter_wave(E):
    nr = E.real("n", 0.1, 5.0, special=(1.0, 1.5))
    k = E.real("k", 0.0, 5.0)
    lb = E.real("lbda", 10.0, 20000.0, special=(500.0,))
    E.root_hint(nr + 1j * k)
    kind = E.choose("kind", ["const", "uniaxial"])
    d = elli.ConstantRefractiveIndex(n=nr + 1j * k)
    if kind == "const":
        mat = elli.IsotropicMaterial(d)
    else:
        ne = E.real("ne", 0.1, 5.0)
        mat = elli.UniaxialMaterial(d, elli.ConstantRefractiveIndex(n=ne))
    E.eq("qwp:" + kind, utils.get_qwp_thickness(mat, lb), lb / (4 * nr))
