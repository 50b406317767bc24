"""C28 importers

The files are generated: texts as the instruments' software writes them and HDF5 trees.  In the symbolic world the real readers run on
texts whose numbers stand for arbitrary ones (frame.standing_for), and HDF5 files are replaced by a tree with the same content, whose
spectra have arbitrarily many wavelengths."""
import itertools
import os
import tempfile
from contextlib import contextmanager

import numpy as np

import elli
from elli.dispersions.table_spectraray import TableSpectraRay
from elli.importer import nexus as nx
from elli.importer.accurion import read_accurion_psi_delta
from elli.importer.nexus import NexusGroupNames, read_nexus_materials, read_nexus_psi_delta, read_nexus_rho
from elli.importer.spectraray import read_spectraray_mmatrix, read_spectraray_psi_delta, read_spectraray_rho
from elli.importer.woollam import read_woollam_psi_delta, read_woollam_rho
from .. import findings, frame
from ..engine import harness
from .c22 import COLS, rho_of

FILES = "files of at most three angles and four wavelengths; any measured values in the texts' formats"
H5 = ["h5py.File: a tree of groups and datasets with attributes (the concrete runs read real files)"]


class Numbers:
    """numbers as they are written in a file, and their values"""

    def __init__(self, E):
        self.E, self.k, self.tokens = E, 0, {}

    def __call__(self, name, lo, hi, digits=6):
        v = self.E.real(f"{name} {self.k}", lo, hi)
        self.k += 1
        if self.E.sym:
            # different numbers of the same sign
            t = f"{lo + (hi - lo) * (0.0137 + 0.618034 * self.k % 1 * 0.97):.{digits}f}"
            while float(t) in self.tokens:
                t = f"{float(t) + 3 * 10 ** -digits:.{digits}f}"
            self.tokens[float(t)] = v
            return t, v
        t = f"{v:.{digits}f}"
        return t, float(t)


@contextmanager
def folder():
    with tempfile.TemporaryDirectory(prefix="c28") as d:
        yield d


def reading(E, nums, text, f, name="file.txt", encoding="utf-8"):
    """f(path) for a file of this text"""
    with folder() as d:
        p = os.path.join(d, name)
        with open(p, "w", encoding=encoding, newline="") as fh:
            fh.write(text)
        with frame.standing_for(nums.tokens if E.sym else {}):
            return f(p)


AOIS = [[65.0], [50.2, 60.2], [70.0, 55.5, 60.0]]
WLS = {"ascending": [300.0, 400.5, 777.25, 1200.0], "descending": [900.5, 640.0, 500.25, 320.0], "others": [500.0, 350.5, 800.0, 250.25]}


def grid(E, orders=("ascending", "descending", "others")):
    aois = AOIS[E.choose("angles", [0, 1, 2])]
    return aois, WLS[E.choose("order", list(orders))][:E.choose("wavelengths", [1, 4])]


def cell(E, df, key, col):
    v = df.loc[key, col] if col is not None else df.loc[key]
    return v


def folded(E, delta):
    """the delta of the same angle in [-180, 180)"""
    return E.m.mod(delta + 180, 360) - 180


def layout(E, df, keys, cols, ordered=True):
    E.true("index names", list(df.index.names) == ["Angle of Incidence", "Wavelength"])
    got = [(float(a), round(float(w), 6)) for a, w in df.index]
    E.true("rows", (got == keys) if ordered else sorted(got) == sorted(keys))
    if cols is not None:
        E.true("columns", set(df.columns) == set(cols))


def check(E, df, want, fold, nums=None, ordered=None, tol=1e-9):
    """want: {(angle, wavelength): (psi, delta)}"""
    keys = list(want)
    layout(E, df, sorted(keys) if ordered == "sorted" else keys, ["Ψ", "Δ"], ordered is not None)
    at = dict(zip([(float(a), round(float(w), 6)) for a, w in df.index], range(len(df.index))))
    ip, idl = list(df.columns).index("Ψ"), list(df.columns).index("Δ")
    for k, (p, d) in want.items():
        E.eq("psi", df.iloc[at[k], ip], p, rtol=tol, scale=1)
        E.eq("delta", df.iloc[at[k], idl], folded(E, d) if fold else d, rtol=tol, scale=1)


def check_rho(E, r, want, tol=1e-9):
    at = dict(zip([(float(a), round(float(w), 6)) for a, w in r.index], range(len(r.index))))
    E.true("rows of rho", set(at) == set(want) and len(r) == len(want))
    for k, (p, d) in want.items():
        E.eq("rho", r.iloc[at[k]], rho_of(E.m, p, d), rtol=tol)


# ------------------------------------------------------------------------------------------------ SpectraRay
@harness("C28", n=60, bounded=FILES, maxpaths=200)
def spectraray(E):
    nums = Numbers(E)
    aois, wls = grid(E)
    digits = E.choose("digits", [5, 3])
    rho = E.choose("read", ["psi and delta", "rho"]) == "rho"
    want, lines = {}, ["; WAVELENGTH " + " ".join(f"{a:.5f} {a:.5f}" for a in aois)]
    for w in wls:
        row = [f"{w:.5f}"]
        for a in aois:
            (tp, p), (td, d) = nums("psi", 0.5, 89.0, digits), nums("delta", -180.0, 360.0, digits)
            want[(a, w)] = (p, d)
            row += [tp, td]
        lines.append(" ".join(row) + E.choose("end of line", ["", " "]) if w == wls[0] else " ".join(row) + " ")
    text = "\n".join(lines) + "\n"
    if rho:
        check_rho(E, reading(E, nums, text, read_spectraray_rho), want)
    else:
        check(E, reading(E, nums, text, read_spectraray_psi_delta), want, True, ordered="sorted")


@harness("C28", n=40, bounded=FILES)
def spectraray_separators(E):
    """other separators"""
    nums = Numbers(E)
    aois, wls = grid(E, ["ascending"])
    dec = E.choose("decimal separator", [".", ","])
    aois = [float(int(a)) for a in aois]
    want, lines = {}, [";\tWAVELENGTH\t" + "\t".join(f"{a:.0f}\t{a:.0f}" for a in aois)]
    for w in wls:
        row = [f"{w:.5f}"]
        for a in aois:
            (tp, p), (td, d) = nums("psi", 0.5, 89.0), nums("delta", -180.0, 360.0)
            want[(a, w)] = (p, d)
            row += [tp, td]
        lines.append("\t".join(row).replace(".", dec) + "\t")
    df = reading(E, nums, "\n".join(lines) + "\n", lambda p: read_spectraray_psi_delta(p, "\t", dec))
    check(E, df, want, True, ordered="sorted")


@harness("C28", n=40, bounded="files of at most four wavelengths; any values in the text's format")
def spectraray_mueller(E):
    nums = Numbers(E)
    wls = WLS[E.choose("order", ["ascending", "descending"])][:E.choose("wavelengths", [1, 3])]
    want, lines = [], ["; WAVELENGTH " + " ".join(["70.20000"] * 16)]
    for w in wls:
        row = [nums("M", -1.0, -0.01) if (i % 3) else nums("M", 0.01, 1.0) for i in range(16)]
        want.append([v for _, v in row])
        lines.append(" ".join([f"{w:.5f}"] + [t for t, _ in row]) + " ")
    df = reading(E, nums, "\n".join(lines) + "\n", read_spectraray_mmatrix)
    E.true("columns", list(df.columns) == COLS)
    E.true("index", df.index.name == "Wavelength" and [float(x) for x in df.index] == wls)
    for i, r in enumerate(want):
        for j, v in enumerate(r):
            E.eq("element", df.iloc[i, j], v, rtol=1e-9)


# ------------------------------------------------------------------------------------------------ Woollam
UNITS = {"nm": 1.0, "Angstroms": 0.1, "ANGSTROMS": 0.1, "um": 1000.0, "microns": 1000.0}


def woollam(E, kind, read_rho):
    nums = Numbers(E)
    aois = AOIS[E.choose("angles", [0, 2])]
    unit = E.choose("unit", ["nm", "Angstroms", "um"])
    wls = WLS[E.choose("order", ["ascending", "descending"])][:E.choose("wavelengths", [1, 3])]
    sign = E.choose("first delta", ["positive", "negative"])
    others = E.choose("other rows", [True, False])
    head = ["A sample, AR high, zone ave, DA50/100", "VASEmethod[EllipsometerType=4, Isotropic, Revs=50, I_Threshold=0.40]"]
    if kind == "wvase":
        head.append("Original[glas_e1.dat]")
    head.append(unit)
    rows, want, extra = [], {}, []
    for a in aois:
        for w in wls:
            tp, p = nums("psi", 0.5, 89.0)
            td, d = nums("delta", *((-89.0, -0.01) if sign == "negative" else (0.01, 269.0))) if not want else nums("delta", -89.0, 269.0)
            want[(a, w)] = (p, d)
            x = [f"{w / UNITS[unit]:.6f}", f"{a:.6f}", tp, td, "0.370710", "3.460240"]
            rows.append((["E"] if kind == "complete_ease" else []) + x)
            extra.append([("dPolE" if kind == "complete_ease" else "dpolE"), x[0], x[1], "-0.393209", "0.199934"])
    text = "\n".join(head + ["\t".join(r) for r in rows + (extra if others else [])]) + "\n"
    tol = 1e-9
    if read_rho:
        r = reading(E, nums, text, read_woollam_rho)
        E.true("order of the rows", [(float(a), round(float(w), 6)) for a, w in r.index] == list(want))
        check_rho(E, r, want, tol)
    else:
        check(E, reading(E, nums, text, read_woollam_psi_delta), want, False, ordered="file", tol=tol)


@harness("C28", n=60, bounded=FILES, maxpaths=200)
def wvase(E):
    woollam(E, "wvase", False)


@harness("C28", n=60, bounded=FILES, maxpaths=200)
def complete_ease(E):
    woollam(E, "complete_ease", False)


@harness("C28", n=40, bounded=FILES, maxpaths=200)
def woollam_rho(E):
    woollam(E, E.choose("format", ["wvase", "complete_ease"]), True)


@harness("C28", n=20)
def woollam_refused(E):
    """other formats are refused"""
    nums = Numbers(E)
    text, err = E.choose("text", [("title\nmethod\nnm  TRIG\n300 70 .245 .123\n", NotImplementedError), ("title\nnm\n", ValueError),
                                  ("title\nnothing\nelse\n1;2;3\n", ValueError)])
    E.raises("refused", err, lambda: reading(E, nums, text, read_woollam_psi_delta))
    E.raises("refused", err, lambda: reading(E, nums, text, read_woollam_rho))


# ------------------------------------------------------------------------------------------------ Accurion
@harness("C28", n=60, bounded=FILES, maxpaths=200)
def accurion(E):
    nums = Numbers(E)
    aois, wls = grid(E)
    order = E.choose("rows", ["by angle", "by wavelength", "reversed"])
    head = ["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]
    units = ["#-", "deg", "nm", "nm", "us", "µm", "µm", "deg", "deg"]
    want, rows = {}, []
    keys = [(a, w) for a in aois for w in wls]
    if order == "by wavelength":
        keys = [(a, w) for w in wls for a in aois]
    elif order == "reversed":
        keys = keys[::-1]
    for a, w in keys:
        (td, d), (tp, p) = nums("delta", -180.0, 360.0), nums("psi", 0.5, 89.0)
        want[(a, w)] = (p, d)
        rows.append(["0", f"{a:.3f}", f"{w:.2f}", "6.1", "115908", "417.6", "409.8", td, tp])
    text = "\n".join("\t".join(r) for r in [head, units] + rows) + "\n"
    df = reading(E, nums, text, read_accurion_psi_delta, encoding=E.choose("encoding", ["latin-1", "utf-8"]))
    check(E, df, want, True, ordered="sorted")


# ------------------------------------------------------------------------------------------------ SpectraRay materials
@harness("C28", n=40, bounded="tables of at most four rows; any values in the text's format")
def spectraray_materials(E):
    nums = Numbers(E)
    x_unit = E.choose("unit", ["Wavelength", "Energy"])
    axis = {"Wavelength": WLS["ascending"], "Energy": [0.75, 1.5, 2.25, 4.0]}[x_unit][:E.choose("rows", [2, 4])]
    rows = [(x, nums("e1", 1.0, 20.0), nums("e2", 0.01, 9.0)) for x in axis]
    before = ["Some material", f"Units={x_unit},{'nm' if x_unit == 'Wavelength' else 'eV'},Dielectric function", "Begin of array"]
    text = "\n".join(before + [f"{x:.4f} {a[0]} {b[0]}" + E.choose("further column", ["", " 0.5"]) if x == axis[0] else
                               f"{x:.4f} {a[0]} {b[0]}" for x, a, b in rows] + ["End of array", "Comment=nothing", ""])
    d = reading(E, nums, text, lambda p: TableSpectraRay(os.path.dirname(p) + "/").load_dispersion_table(os.path.basename(p)))
    for x, (_, a), (_, b) in rows:
        lb = np.array([x if x_unit == "Wavelength" else float(elli.utils.conversion_wavelength_energy(x))])
        E.eq("dielectric function", d.get_dielectric(lb)[0], a + 1j * b, rtol=1e-9)


# ------------------------------------------------------------------------------------------------ NeXus
class Data:
    """a dataset"""
    _vf_split = True
    __hash__ = object.__hash__

    def __init__(self, value, **attrs):
        self.value, self.attrs = value, attrs

    def __getitem__(self, i):
        if i != ():
            raise frame.Unsupported("part of a dataset")
        return self.value.encode() if isinstance(self.value, str) else self.value

    def _np(self, name, a, k):
        if name not in ("array", "asarray") or len(a) != 1 or k:
            raise frame.Unsupported(f"np.{name} of a dataset")
        return self.value

    @property
    def shape(self):
        return getattr(self.value, "shape", ())


class Group:
    """a group"""

    def __init__(self, children, **attrs):
        self.children, self.attrs = children, attrs

    def _get(self, path):
        g = self
        for p in path.strip("/").split("/"):
            if not isinstance(g, Group) or p not in g.children:
                return None
            g = g.children[p]
        return g

    def __contains__(self, path):
        return self._get(path) is not None

    def __getitem__(self, path):
        r = self._get(path)
        if r is None:
            raise KeyError(path)
        return r

    def _sorted(self):
        return sorted(self.children)

    def keys(self):
        return self._sorted()

    def __iter__(self):
        return iter(self._sorted())

    def values(self):
        return [self.children[k] for k in self._sorted()]

    def items(self):
        return [(k, self.children[k]) for k in self._sorted()]

    def visititems(self, f, prefix=""):
        for k, v in self.items():
            r = f(prefix + k, v)
            if r is not None:
                return r
            if isinstance(v, Group):
                r = v.visititems(f, prefix + k + "/")
                if r is not None:
                    return r
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class _H5:
    Dataset, Group = Data, Group

    def __init__(self, tree):
        self.tree = tree

    def File(self, name, mode="r", *a, **k):
        if name != "file.nxs" or mode != "r":
            raise frame.Unsupported("opening of such a file")
        return self.tree


def write(g, tree):
    for k, v in tree.items():
        if isinstance(v, Group):
            x = g.create_group(k)
            write(x, v)
        else:
            x = g.create_dataset(k, data=v.value if isinstance(v.value, str) else np.asarray(v.value))
        for a, b in v.attrs.items():
            x.attrs[a] = b


def stored(E, tree, f):
    """f(file name) for a file with this content"""
    if E.sym:
        old = nx.h5py
        nx.h5py = _H5(tree)
        try:
            return f("file.nxs")
        finally:
            nx.h5py = old
    import h5py
    with folder() as d:
        p = os.path.join(d, "file.nxs")
        with h5py.File(p, "w") as h:
            write(h, tree)
        return f(p)


def nested(paths):
    """a tree from {path: dataset}"""
    root = Group({})
    for p, v in paths.items():
        *dirs, last = p.split("/")
        g = root
        for q in dirs:
            g = g.children.setdefault(q, Group({}))
        g.children[last] = v
    return root


@harness("C28", n=60, bounded="at most three angles; any number of wavelengths", trusted=H5)
def nexus_psi_delta(E):
    m = E.m
    new = E.choose("definition", ["new", "legacy"]) == "new"
    aois = E.choose("angles", [[50.0], [50.0, 60.0], [70.0, 55.5, 60.0]])
    N = E.dim("N")
    lb = E.rarray("lbda", (N,), 1500.0, 30000.0, axis=True)
    data = [[E.rarray(f"psi{i}", (N,), 0.0, 89.0), E.rarray(f"delta{i}", (N,), -180.0, 360.0)] for i in range(len(aois))]
    both = m.stack([m.stack(d, 0) for d in data], 0)
    names = E.choose("names", [None, ("scan", "my_sample", "setup")])
    entry, sample, instrument = names or ("entry", "sample", "instrument")
    if new:
        tree = nested({f"{entry}/data_collection/data_type": Data("Psi/Delta"), f"{entry}/data_collection/measured_data": Data(both),
                       f"{entry}/data_collection/wavelength_spectrum": Data(lb, units="Angstroms"),
                       f"{entry}/{instrument}/angle_of_incidence": Data(np.array(aois), unit="degrees")})
    else:
        # the type of the data is looked for in the group named sample
        tree = nested({f"{entry}/sample/data_type": Data("psi/delta"), f"{entry}/{sample}/measured_data": Data(both[None, None]),
                       f"{entry}/{instrument}/spectrometer/wavelength": Data(lb, units="angstrom"),
                       f"{entry}/{instrument}/angle_of_incidence": Data(np.array(aois), units="degrees")})
    args = () if names is None else (NexusGroupNames(entry=entry, sample=sample, instrument=instrument),)
    df = stored(E, tree, lambda f: read_nexus_psi_delta(f, *args))
    E.true("columns", list(df.columns) == ["Ψ", "Δ"])
    E.true("index names", list(df.index.names) == ["Angle of Incidence", "Wavelength"])
    if E.sym:
        E.true("angles", [float(a) for a in df.index.first] == aois)
        E.eq("wavelengths in nanometres", df.index.axis, lb / 10)
    else:
        E.true("angles and wavelengths", [(float(a), float(w)) for a, w in df.index] == [(a, float(w)) for a in aois for w in np.asarray(lb) / 10])
    for a, (p, d) in zip(aois, data):
        E.eq("psi", frame.block(df, a, "Ψ"), p, rtol=1e-12)
        E.eq("delta", frame.block(df, a, "Δ"), d, rtol=1e-12)
    if names is None:
        r = stored(E, tree, read_nexus_rho)
        for a, (p, d) in zip(aois, data):
            E.eq("rho", frame.block(r, a), rho_of(m, p, d), rtol=1e-9)


@harness("C28", n=20, trusted=H5)
def nexus_refused(E):
    def at(dt, where="data_collection"):
        return nested({f"entry/{where}/data_type": Data(dt)})
    E.raises("other data", NotImplementedError, lambda: stored(
        E, at(E.choose("data type", ["Mueller matrix", "rho", "tan(Psi)/cos(Delta)"]), E.choose("place", ["sample", "data_collection"])), read_nexus_psi_delta))
    E.raises("no data", ValueError, lambda: stored(E, nested({"entry/something": Data("x")}), read_nexus_psi_delta))
    E.raises("group names", ValueError, lambda: stored(
        E, at("Psi/Delta"), lambda f: read_nexus_psi_delta(f, E.choose("names", ["entry", ("a", "b", "c"), {"entry": "entry"}]))))


def function(E, tag, kind, lb):
    """a dispersion_function group and its values at lb"""
    m = E.m
    unit, scale = E.choose("unit" + tag, [("micrometer", 1000.0), ("nanometer", 1.0), ("angstrom", 0.1)])
    x = lb / scale
    K = E.choose("sets" + tag, [1, 2])
    a = E.real("a" + tag, 0.5, 3.0)
    B = [E.real(f"B{tag}{i}", 0.1, 2.0) for i in range(K)]
    C = [E.real(f"C{tag}{i}", 0.05, 0.19) * (1000.0 / scale) for i in range(K)]
    s = sum(b * x ** 2 / (x ** 2 - c ** 2) for b, c in zip(B, C))
    formula = {"eps": "eps = a + sum[B * lambda ** 2 / (lambda ** 2 - C ** 2)]", "n": "n = a + sum[B * lambda ** 2 / (lambda ** 2 - C ** 2)]"}[kind]
    rep = "NXdispersion_repeated_parameter"
    g = Group({"formula": Data(formula), "representation": Data(kind), "wavelength_identifier": Data("lambda"),
               "wavelength_unit": Data(1, units=unit), "model_name": Data("some"),
               "a_value": Group({"name": Data("a"), "value": Data(a)}, NX_class="NXdispersion_single_parameter"),
               "B": Group({"name": Data("B"), "values": Data(m.array(B))}, NX_class=rep),
               "Cs": Group({"name": Data("C"), "values": Data(m.array(C))}, NX_class=rep)}, NX_class="NXdispersion_function")
    return g, a + s


def table_group(E, tag, kind, energies=False):
    """a dispersion_table group, its wavelengths and values"""
    N = E.dim("rows" + tag)
    if E.sym:
        x = E.rarray("x" + tag, (N,), *((0.5, 6.0) if energies else (200.0, 3000.0)))
    else:
        n = len(E.rarray("x" + tag, (N,), 0.0, 1.0))
        r = np.random.default_rng(E.choose("seed" + tag, list(range(50))))
        lo, hi = (0.45, 6.0) if energies else (210.0, 2900.0)
        x = r.permutation(np.linspace(lo, hi, n) + r.uniform(0, 10 / n * (hi - lo) / 2700, n)) if n > 1 else np.array([lo])
    re, im = E.rarray("re" + tag, (N,), 0.5, 4.0), E.rarray("im" + tag, (N,), 0.0, 3.0)
    y = re + 1j * im
    g = Group({("energy" if energies else "wavelength"): Data(x, units="eV" if energies else "nanometer"),
               ("refractive_index" if kind == "n" else "dielectric_function"): Data(y), "convention": Data("n + ik")}, NX_class="NXdispersion_table")
    return g, (elli.utils.conversion_wavelength_energy(x) if energies else x), y


def between(E, x):
    if E.sym:
        return E.rarray("at", (E.dim("N"),), 200.0, 3000.0)
    lo, hi = min(x), max(x)
    return np.array([lo + f * (hi - lo) for f in E.rarray("f", (E.dim("N"),), 0.0, 1.0)]).clip(lo, hi)


def others():
    return {"plot": Group({"wavelength": Data(np.array([1.0, 2.0]))}, NX_class="NXdata"), "model_name": Data("some"),
            "reference": Group({"text": Data("someone")})}


@harness("C28", n=60, trusted=H5, bounded="at most two parts per axis and two repeated parameters", maxpaths=300)
def nexus_formulas(E):
    """formulas on one, two or three axes"""
    m = E.m
    k = E.choose("axes", ["x", "xz", "xyz"])
    lb = E.rarray("lbda", (E.dim("N"),), 200.0, 3000.0, special=(500.0,), axis=True)
    kind = E.choose("representation", ["eps", "n"])
    two = E.choose("parts", [1, 2])
    groups, want = {}, {}
    for i, ax in enumerate(k):
        g, w = function(E, ax, kind, lb) if i == 0 else const_function(E, ax, kind)
        ch = dict(others(), function=g)
        if two == 2 and i == 0:
            g2, w2 = const_function(E, ax + "2", kind)
            ch["another"] = g2
            w = w + w2
        groups["dispersion_" + ax] = Group(ch, NX_class="NXdispersion")
        want[ax] = w * w if kind == "n" else w
    tree = Group({"entry": Group(dict(groups, sample=Group({"chemical_formula": Data("Si")}), definition=Data("NXdispersive_material")))})
    mats = stored(E, tree, read_nexus_materials)
    E.true("entries", list(mats) == ["entry"])
    mat = mats["entry"]
    E.true("kind of material", type(mat) is {"x": elli.IsotropicMaterial, "xz": elli.UniaxialMaterial, "xyz": elli.BiaxialMaterial}[k])
    T = mat.get_tensor(lb)
    along = [want["x"], want.get("y", want["x"]), want.get("z", want["x"])]
    for i in range(3):
        for j in range(3):
            E.eq(f"tensor {i}{j}", T[:, i, j], along[i] + 0 * lb if i == j else 0 * lb, rtol=1e-9, scale=1)


def const_function(E, tag, kind):
    a = E.real("q" + tag, 0.5, 3.0)
    g = Group({"formula": Data(f"{kind} = q"), "representation": Data(kind), "wavelength_identifier": Data("lambda"),
               "wavelength_unit": Data(1, units="micrometer"),
               "q": Group({"name": Data("q"), "value": Data(a)}, NX_class="NXdispersion_single_parameter")}, NX_class="NXdispersion_function")
    return g, a


@harness("C28", n=60, trusted=H5)
def nexus_tables(E):
    """tables against wavelengths or energies, alone or with a formula"""
    m = E.m
    kind = E.choose("representation", ["eps", "n"])
    g, x, y = table_group(E, "", kind, E.choose("axis", ["wavelength", "energy"]) == "energy")
    parts = {"table": g}
    c = 0
    if E.choose("with a formula", [True, False]):
        parts["function"], c = const_function(E, "", kind)
    tree = Group({"material": Group({"dispersion_x": Group(dict(others(), **parts), NX_class="NXdispersion")})})
    mats = stored(E, tree, read_nexus_materials)
    E.true("entries", list(mats) == ["material"] and type(mats["material"]) is elli.IsotropicMaterial)
    T = mats["material"].get_tensor(x)
    want = y + c
    E.eq("at the tabulated wavelengths", T[:, 0, 0], want * want if kind == "n" else want, rtol=1e-8, scale=1)
    p = between(E, x)
    v = frame.interpolated(E, x, y, p) + c
    E.eq("in between", mats["material"].get_tensor(p)[:, 2, 2], v * v if kind == "n" else v, rtol=1e-7, scale=1)


@harness("C28", n=30, trusted=H5)
def nexus_materials_refused(E):
    x, y = np.array([400.0, 500.0]), np.array([1.5 + 0.1j, 1.4])
    table = {"wavelength": Data(x), "refractive_index": Data(y)}

    def read(group, name="dispersion_x"):
        return stored(E, Group({"entry": Group({name: Group({"part": group})})}), read_nexus_materials)
    what = E.choose("what", ["no wavelengths", "no values", "no x axis", "energy axis", "representation"])
    if what == "no wavelengths":
        E.raises(what, ValueError, lambda: read(Group({"refractive_index": Data(y)}, NX_class="NXdispersion_table")))
    elif what == "no values":
        E.raises(what, ValueError, lambda: read(Group({"wavelength": Data(x)}, NX_class="NXdispersion_table")))
    elif what == "no x axis":
        E.raises(what, ValueError, lambda: read(Group(table, NX_class="NXdispersion_table"), E.choose("axis", ["dispersion_y", "dispersion_z"])))
    else:
        g, _ = const_function(E, "", "eps")
        if what == "energy axis":
            g.children["energy_identifier"] = Data("E")
            E.raises(what, NotImplementedError, lambda: read(g))
        else:
            g.children["representation"] = Data("k")
            E.raises(what, ValueError, lambda: read(g))


@findings.probe("nexus-table-units")
def _units():
    import h5py
    lb = np.array([0.4, 0.5, 0.6])
    tree = Group({"entry": Group({"dispersion_x": Group({"table": Group({
        "wavelength": Data(lb, units="micrometer"), "refractive_index": Data(np.array([1.5, 1.4, 1.3]))}, NX_class="NXdispersion_table")})})})
    with folder() as d:
        p = os.path.join(d, "file.nxs")
        with h5py.File(p, "w") as h:
            write(h, tree)
        mat = read_nexus_materials(p)["entry"]
    try:
        return abs(mat.get_refractive_index(500.0) - 1.4) > 1e-6
    except ValueError:
        return True
