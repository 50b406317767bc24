"""C25 refractiveindex.info entries

The catalogue and the files are given: _open_file is replaced by its contract (it returns the content of the selected entry) where
entries are arbitrary; `databases` runs everything on generated databases.  Entries have arbitrary numbers: up to the 17 coefficients
the database format defines for the formulas, and tables with an arbitrary number of rows."""
import io
import os
import sys
import tempfile
from contextlib import contextmanager

import numpy as np
import pandas as pd
import yaml

import elli
from elli.database.refractive_index_info import RII
from .. import frame
from ..engine import harness
from ..sym import Sym
from .c05 import NAMES  # noqa: F401

READ = ["RII._open_file returns the content of the entry (checked on generated databases by `databases`)",
        "the numbers in the text of an entry are read as they are (str.split, float, pandas.read_table)"]
LO, HI = 200.0, 3000.0


class Coeffs(str):
    """a text of arbitrary numbers separated by blanks"""

    def __new__(cls, tokens):
        t = super().__new__(cls, "")
        t.tokens = list(tokens)
        return t

    def split(self, sep=None, maxsplit=-1):
        return list(self.tokens)


def text(E, numbers):
    return Coeffs(numbers) if E.sym else " ".join(repr(float(x)) for x in numbers)


def rows(E, columns):
    """the text of a table"""
    if E.sym:
        return frame.Text(columns)
    gap = E.choose("blanks", [" ", "  ", "\t"])
    return "".join(gap.join(repr(float(c[i])) for c in columns) + "\n" for i in range(len(columns[0])))


def entry(*data):
    return {"REFERENCES": "someone", "COMMENTS": "something", "DATA": list(data)}


def database(E, content, seen=None):
    """a database whose selected entry has this content"""
    r = object.__new__(RII)

    def _open_file(book, page):
        if seen is not None:
            seen.append((book, page))
        return content
    r._open_file = _open_file
    return r


# exponents the formulas are used with; any real number (symbolic) or these
def coefficients(E, n, exponents=()):
    """c[1..n], as in the documentation"""
    c = [None]
    for i in range(1, n + 1):
        if i in exponents:
            c.append(E.real(f"C{i}", -4.0, 4.0, special=(2.0, -2.0, 1.0)) if E.sym else E.choose(f"C{i}", [2, -2, 1, -4, 0.5, -1.5, 4, 0]))
        else:
            c.append(E.real(f"C{i}", 0.001, 2.0, special=(0.5,)))
    return c


FORMULAS = {1: range(1, 18, 2), 2: range(1, 18, 2), 3: range(1, 18, 2), 4: [1, 5, 9, 11, 13, 15, 17], 5: range(1, 18, 2)}


def exponents(kind, n):
    if kind in (3, 5):
        return [i for i in range(3, n + 1, 2)]
    if kind == 4:
        return [i for i in (3, 5, 7, 9) if i <= n] + [i for i in range(11, n + 1, 2)]
    return []


def formula(E, kind, c, lb):
    """the formulas of refractiveindex.info, wavelength in micrometres"""
    x = lb / 1000
    n = len(c) - 1
    if kind in (1, 2):
        r = 1 + c[1]
        for i in range(2, n, 2):
            r = r + c[i] * x ** 2 / (x ** 2 - (c[i + 1] ** 2 if kind == 1 else c[i + 1]))
        return r
    if kind in (3, 5):
        r = c[1]
        for i in range(2, n, 2):
            r = r + c[i] * x ** c[i + 1]
        return r
    r = c[1]
    if n >= 5:
        r = r + c[2] * x ** c[3] / (x ** 2 - c[4] ** c[5])
    if n >= 9:
        r = r + c[6] * x ** c[7] / (x ** 2 - c[8] ** c[9])
    for i in range(10, n, 2):
        r = r + c[i] * x ** c[i + 1]
    return r


def poles(E, kind, c, lb):
    """away from the resonances"""
    m = E.m
    x, n = lb / 1000, len(c) - 1
    if kind in (1, 2):
        for i in range(2, n, 2):
            E.assume(m.all(m.abs(x ** 2 - (c[i + 1] ** 2 if kind == 1 else c[i + 1])) > 1e-6))
    if kind == 4:
        for i in (4, 8):
            if n > i:
                E.assume(m.all(m.abs(x ** 2 - c[i] ** c[i + 1]) > 1e-6))


def axis(E):
    if E.choose("wavelengths", ["array", "scalar"]) == "scalar":
        return E.real("lbda", LO, HI, special=(500.0, 1000.0))
    return E.rarray("lbda", (E.dim("N"),), LO, HI, special=(500.0, 1000.0), axis=True)


def formula_entry(E, kind, n, lb):
    c = coefficients(E, n, exponents(kind, n))
    poles(E, kind, c, lb)
    return {"type": f"formula {kind}", "wavelength_range": "0.2 3", "coefficients": text(E, c[1:])}, formula(E, kind, c, lb)


def formulas(kind):
    def h(E):
        m = E.m
        lb = axis(E)
        n = E.choose("number of coefficients", list(FORMULAS[kind]))
        data, want = formula_entry(E, kind, n, lb)
        seen = []
        d = database(E, entry(data), seen).get_dispersion("B", "P")
        E.true("the entry asked for", seen == [("B", "P")])
        nn = d.get_refractive_index(lb)
        if kind == 5:
            E.eq("index", nn + 0 * lb, want + 0 * lb, rtol=1e-9)
        else:
            E.eq("square of the index", nn * nn + 0 * lb, want + 0 * lb, rtol=1e-9)
            E.true("real part not negative", m.all(m.real(nn + 0 * lb) >= 0))
        E.eq("dielectric function", d.get_dielectric(lb) + 0 * lb, (want * want if kind == 5 else want) + 0 * lb, rtol=1e-9)
    h.__name__ = f"formula_{kind}"
    return harness("C25", n=60, maxpaths=100, trusted=READ)(h)


for _k in FORMULAS:
    globals()[f"formula_{_k}"] = formulas(_k)


# ------------------------------------------------------------------------------------------------ tables
def table(E, tag, kinds):
    """wavelengths (micrometres) in any order and columns of values"""
    d = E.dim("rows" + tag)
    if E.sym:
        x = E.rarray("x" + tag, (d,), 0.1, 20.0)
    else:
        n = d if isinstance(d, int) else len(E.rarray("x" + tag, (d,), 0.1, 20.0))
        r = np.random.default_rng(E.choose("seed" + tag, list(range(50))))
        x = np.round(r.permutation(np.linspace(0.2, 3.0, n) + r.uniform(0, 0.5 / n, n)), 6) if n > 1 else np.array([0.55])
    cols = [1.0 * E.rarray(k + tag, (d,), *((0.5, 4.0) if k == "n" else (0.0, 5.0))) for k in kinds]
    return x, cols


def between(E, x, tag=""):
    """an arbitrary wavelength inside the table, in nm"""
    if E.sym:
        return E.rarray("at" + tag, (E.dim("N" + tag),), LO, HI)
    lo, hi = 1000 * min(x), 1000 * max(x)
    return np.array([lo + f * (hi - lo) for f in E.rarray("f" + tag, (E.dim("N" + tag),), 0.0, 1.0)]).clip(lo, hi)


@harness("C25", n=60, trusted=READ)
def tabulated(E):
    m = E.m
    kind = E.choose("type", ["tabulated nk", "tabulated n", "tabulated k"])
    names = {"tabulated nk": ["n", "k"], "tabulated n": ["n"], "tabulated k": ["k"]}[kind]
    x, cols = table(E, "", names)
    data = {"type": kind, "data": rows(E, [x] + cols)}
    want = {"tabulated nk": lambda: cols[0] + 1j * cols[1], "tabulated n": lambda: cols[0] + 0j, "tabulated k": lambda: 1j * cols[0]}[kind]()
    r = database(E, entry(data))
    d = r.get_dispersion("B", "P")
    lb = 1000 * x
    E.eq("index at the tabulated wavelengths", d.get_refractive_index(lb) + 0j, want, rtol=1e-9)
    E.eq("without wavelengths", d.get_refractive_index() + 0j, want, rtol=1e-9)
    p = between(E, x)
    E.eq("index in between", d.get_refractive_index(p) + 0j, frame.interpolated(E, lb, want, p), rtol=1e-7, scale=1)
    E.eq("dielectric function", d.get_dielectric(lb), want ** 2, rtol=1e-9)
    if not E.sym:
        lo, hi = min(lb), max(lb)
        E.raises("outside of the table", ValueError, lambda: d.get_refractive_index(np.array([hi * 1.01])))
        E.raises("outside of the table", ValueError, lambda: d.get_refractive_index(lo * 0.99))


@harness("C25", n=80, maxpaths=200, trusted=READ)
def several(E):
    """entries of several parts: n of the one and k of the other"""
    m = E.m
    first = E.choose("first", ["tabulated n", 1, 2, 3, 4, 5])
    swapped = E.choose("order", ["n first", "k first"]) == "k first"
    xk, (k,) = table(E, " of k", ["k"])
    p = between(E, xk)
    kd = {"type": "tabulated k", "data": rows(E, [xk, k])}
    kk = frame.interpolated(E, 1000 * xk, k, p)
    if first == "tabulated n":
        if E.sym:
            xn, (n,) = table(E, " of n", ["n"])
        else:
            xn, n = xk, 1.0 * E.rarray("n of n", (len(xk),), 0.5, 4.0)
        nd = {"type": "tabulated n", "data": rows(E, [xn, n])}
        nn = frame.interpolated(E, 1000 * xn, n, p)
    else:
        size = E.choose("number of coefficients", [1, 5, 9])
        nd, w = formula_entry(E, first, size, p)
        nn = w if first == 5 else m.csqrt(w)
    d = database(E, entry(*([kd, nd] if swapped else [nd, kd]))).get_dispersion("B", "P")
    E.eq("index", d.get_refractive_index(p) + 0j, nn + 1j * kk, rtol=1e-7, scale=1)
    E.eq("dielectric function", d.get_dielectric(p), (nn + 1j * kk) ** 2, rtol=1e-7, scale=1)


@harness("C25", n=40, trusted=READ)
def material(E):
    """the material is isotropic with this dispersion"""
    m = E.m
    d = E.dim("N")
    lb = E.rarray("lbda", (d,), LO, HI, axis=True)
    kind = E.choose("formula", [1, 2, 3, 4, 5])
    data, want = formula_entry(E, kind, 5, lb)
    mat = database(E, entry(data)).get_mat("B", "P")
    E.true("isotropic", isinstance(mat, elli.IsotropicMaterial))
    T = mat.get_tensor(lb)
    for i in range(3):
        for j in range(3):
            E.eq(f"tensor {i}{j}", T[:, i, j], (want ** 2 if kind == 5 else want) + 0 * lb if i == j else 0 * lb, rtol=1e-9)


OTHER = ["formula 6", "formula 7", "formula 8", "formula 9", "formula", "formula 10", "formula 11", "tabulated", "tabulated kn", "tabulated n2", ""]


@harness("C25", n=40)
def unsupported(E):
    """entries of other types are refused, also as a part of an entry"""
    kind = E.choose("type", OTHER)
    bad = {"type": kind, "coefficients": text(E, [1.0, 0.5, 0.1, 0.2, 0.1]), "data": "0.5 1.5 0.1\n0.6 1.4 0.2\n"}
    good = {"type": "formula 1", "coefficients": text(E, [1.0, 0.5, 0.1])}
    where = E.choose("parts", [[bad], [good, bad], [bad, good]])
    r = database(E, entry(*where))
    E.raises("unsupported", ValueError, lambda: r.get_dispersion("B", "P"))
    E.raises("unsupported", ValueError, lambda: r.get_mat("B", "P"))


# ------------------------------------------------------------------------------------------------ the catalogue
BOOKS = [("main", "Au", "Johnson", "Johnson and Christy", 1972, "n,k", 188.0, 1937.0),
         ("main", "Au", "Babar", "Babar and Weaver", 2015, "", 206.6, 12400.0),
         ("main", "Ag", "Johnson", "Johnson and Christy", 1972, "n,k", 188.0, 1937.0),
         ("glass", "BK7", "SCHOTT", None, None, "BK7", None, None),
         ("organic", "C2H6O", "Rheims", "Rheims", 1997, "25 C", 476.0, 830.0),
         ("main", "SiO2", "Malitson", "Malitson", 1965, "fused silica", 210.0, 6700.0),
         ("main", "SiO2", "Au", "Au et al.", 1990, "thin film", 300.0, 500.0)]


def catalogue(E, symbolic=False):
    """a database with the catalogue of these rows, and the ranges of each row"""
    r = object.__new__(RII)
    ranges = []
    for i, b in enumerate(BOOKS):
        if b[6] is None:
            ranges.append((None, None))
        elif symbolic:
            ranges.append((E.real(f"lower{i}", 100.0, 1000.0, special=(500.0,)), E.real(f"upper{i}", 400.0, 2000.0, special=(500.0,))))
        else:
            ranges.append(b[6:8])
    t = pd.DataFrame([{"shelf": b[0], "shelf_longname": b[0].upper(), "book_divider": None, "book": b[1], "book_longname": b[1] + " long",
                       "page": b[2], "page_type": None, "author": b[3], "year": b[4] and str(b[4]), "comment": b[5],
                       "path": f"data/{i}.yml"} for i, b in enumerate(BOOKS)], dtype=pd.StringDtype())
    t["year"] = pd.to_numeric(t["year"], errors="coerce").convert_dtypes()
    for j, n in ((0, "lower_range"), (1, "upper_range")):
        if E.sym and symbolic:
            c = np.empty(len(BOOKS), dtype=object)
            for i, v in enumerate(ranges):
                c[i] = float("nan") if v[j] is None else v[j]
            t[n] = pd.Series(c, dtype=object)
        else:
            t[n] = [np.nan if v[j] is None else v[j] for v in ranges]
    r.catalog = t
    r._filter_lists = {c: t[c].drop_duplicates().dropna().values for c in
                       ("book_divider", "book", "book_longname", "page", "author", "comment")}
    return r, ranges


@harness("C25", n=60, maxpaths=3000, bounded="a catalogue of seven rows with any wavelength ranges, seven wavelength filters")
def wavelengths(E):
    """the wavelength filter keeps exactly the rows whose range has all wavelengths"""
    r, ranges = catalogue(E, True)
    q = E.choose("query", ["Johnson", "Au", "SiO2", "BK7", "nothing"])
    col = {"Johnson": "page", "Au": "book", "SiO2": "book", "BK7": "book", "nothing": "book"}[q]
    hit = [i for i, b in enumerate(BOOKS) if b[{"page": 2, "book": 1}[col]] == q]
    wl = E.choose("wavelengths", [[], [500.0], [500], [632.8, 500.0], [500.0, 405.0]])
    if len(wl) != 1 or E.choose("given as", ["list", "number"]) == "list":
        arg = {"list": list, "tuple": tuple, "array": np.array}[E.choose("container", ["list", "tuple", "array"])](wl)
    else:
        arg = wl[0]
    got = list(r.search(q, column=col, wavelength_filter=arg, fuzzy=False).index)
    for i in range(len(BOOKS)):
        if i not in hit:
            E.true("other rows are not in the result", i not in got)
        elif ranges[i][0] is None:
            E.true("rows without a range", (i in got) == (not wl))
        else:
            inside = True
            for w in wl:
                c = (ranges[i][0] <= w) & (w <= ranges[i][1])
                inside = c if inside is True else inside & c
            if i in got:
                E.true("rows in the result have the wavelengths", inside)
            elif inside is True:
                E.true("rows that match are in the result", False)
            else:
                E.true("rows that match are in the result", ~inside if E.sym else not inside)
    E.true("in the order of the catalogue", got == sorted(got))


def scored(q, s):
    from rapidfuzz import fuzz
    return fuzz.WRatio(q, s)


QUERIES = ["Au", "Ag", "Johnson", "SCHOTT", "SiO2", "Johnson and Christy", "n,k", "main", "glass", "", "BK", "Jonson", "Malitson", "1972", "AU LONG", "Au long", "SIO2 long"]


@harness("C25", n=200, sym=False)
def queries(E):
    """exact search: the rows with a value that is equal; approximate search: rows with a similar value, equal ones included"""
    r, _ = catalogue(E)
    n = E.choose("queries", [1, 2])
    qs = [E.choose(f"query {i}", QUERIES) for i in range(n)]
    fuzzy = E.choose("fuzzy", [False, True])
    names = list(r._filter_lists) if fuzzy else list(r.catalog.columns)
    how = E.choose("columns", ["all", "default", "one", "two"])
    cols = [E.choose("column 1", names)] + ([E.choose("column 2", names)] if how == "two" else [])
    arg = {} if how == "default" else {"column": "all" if how == "all" else cols[0] if how == "one" else cols}
    if how in ("all", "default"):
        cols = names
    before = r.catalog.copy(deep=True)
    got = r.search(qs[0] if n == 1 and E.choose("alone", [True, False]) else qs, fuzzy=fuzzy, **arg)
    E.true("columns", list(got.columns) == list(r.catalog.columns))
    hits = list(got.index)
    for i in range(len(BOOKS)):
        row = r.catalog.loc[i]
        vals = [row[c] for c in cols if not pd.isna(row[c])]
        exact = any(isinstance(v, str) and v == q for v in vals for q in qs)
        if fuzzy:
            E.true("rows in the result are similar", i not in hits or any(scored(q, v) >= 80 for v in vals for q in qs))
            E.true("equal rows are in the result", not exact or i in hits or any(q == "" for q in qs))
        else:
            E.true("exactly the rows that are equal", (i in hits) == exact)
    E.true("in the order of the catalogue", hits == sorted(hits))
    E.true("rows as in the catalogue", got.equals(r.catalog.loc[hits]))
    E.true("catalogue unchanged", before.equals(r.catalog))
    for bad in ("500", {"a": 1}, {500}):
        E.raises("other filters", ValueError, lambda: r.search("Au", wavelength_filter=bad))


@harness("C25", n=40)
def unknown(E):
    """entries that are not in the catalogue, or not unique, are refused"""
    r, _ = catalogue(E)
    r.rii_path = None
    b, p = E.choose("entry", [("foo", "bar"), ("Au", "SCHOTT"), ("BK7", "Johnson"), ("Johnson", "Au"), ("", ""), ("au", "johnson"), ("Au", "")])
    for f in (r.get_dispersion, r.get_mat, r.get_reference, r.get_comment):
        E.raises("unknown entry", ValueError, lambda: f(b, p))
    r.catalog = pd.concat([r.catalog, r.catalog.iloc[[0]]], ignore_index=True)
    E.raises("entry listed twice", ValueError, lambda: r.get_dispersion("Au", "Johnson"))


# ------------------------------------------------------------------------------------------------ whole databases
@contextmanager
def located(path):
    import importlib_resources
    import pathlib
    real = importlib_resources.files
    done = []
    for mod in [m for k, m in list(sys.modules.items()) if k.startswith("elli")] + [importlib_resources]:
        for k, v in list(vars(mod).items()):
            if v is real:
                setattr(mod, k, lambda pkg: pathlib.Path(path))
                done.append((mod, k))
    try:
        yield
    finally:
        for mod, k in done:
            setattr(mod, k, real)


NAMED = [("Johnson and Christy 1972: n,k 0.188-1.937 µm", ("Johnson and Christy", 1972, "", 188.0, 1937.0)),
         ("Babar and Weaver 2015: n,k 0.2066–12.4 µm", ("Babar and Weaver", 2015, "", 206.6, 12400.0)),
         ("Rheims et al. 1997: ethanol; n 0.476–0.830 µm", ("Rheims et al.", 1997, "ethanol", 476.0, 830.0)),
         ("Malitson 1965: n 0.21–6.7 µm; 20 °C", ("Malitson", 1965, "20 °C", 210.0, 6700.0)),
         ("Franta et al. 2015: film; n,k 2.5e-2–125 µm; 300 K", ("Franta et al.", 2015, "film 300 K", 25.0, 125000.0)),
         ("SCHOTT", (None, None, "SCHOTT", None, None))]


@harness("C25", n=40, sym=False)
def databases(E):
    """a generated database from its catalogue and files"""
    seed = E.choose("seed", list(range(400)))
    r = np.random.default_rng(seed)
    with tempfile.TemporaryDirectory() as top:
        os.makedirs(os.path.join(top, "data", "main"))
        listed, cat = [], []
        for s in range(2):
            books = [{"DIVIDER": f"Group {s}"}] if r.integers(2) else []
            div = books[0]["DIVIDER"] if books else None
            for b in range(2):
                pages = []
                for p in range(int(r.integers(1, 4))):
                    if r.integers(3) == 0:
                        pages.append({"DIVIDER": "Model"})
                    ptype = next((q["DIVIDER"] for q in pages[::-1] if "DIVIDER" in q), None)
                    name, info = NAMED[int(r.integers(len(NAMED)))]
                    rel = f"main/{s}-{b}-{p}.yml"
                    pages.append({"PAGE": f"P{p}", "name": name, "data": rel})
                    kind = ["tabulated nk", "tabulated n", "formula 1", "formula 2", "formula 3", "formula 5"][int(r.integers(6))]
                    lb = np.linspace(0.3, 1.2, 7)
                    if kind.startswith("tab"):
                        vals = np.round(r.uniform(0.5, 3, (7, 2 if kind.endswith("k") else 1)), 4)
                        d = {"type": kind, "data": "\n".join(" ".join([repr(float(x))] + [repr(float(v)) for v in row]) for x, row in zip(lb, vals)) + "\n"}
                        want = vals[:, 0] + (1j * vals[:, 1] if vals.shape[1] == 2 else 0)
                    else:
                        c = [float(v) for v in np.round([r.uniform(1, 2), r.uniform(0.1, 1), r.uniform(0.01, 0.05)], 5)]
                        if kind[-1] in "35":
                            c[2] = -2.0
                        d = {"type": kind, "coefficients": " ".join(map(repr, c)), "wavelength_range": "0.3 1.2"}
                        w = formula(E, int(kind[-1]), [None] + c, 1000 * lb)
                        want = w if kind[-1] == "5" else np.sqrt(w + 0j)
                    comment = "Thickness 20 nm, ±0.1 °C" if r.integers(2) else "plain"
                    with open(os.path.join(top, "data", rel), "w", encoding="utf8") as f:
                        yaml.safe_dump({"REFERENCES": f"ref {s}{b}{p}", "COMMENTS": comment, "DATA": [d]}, f, allow_unicode=True)
                    listed.append((f"S{s}", f"Shelf {s}", div, f"B{s}{b}", f"Book {s}{b}", f"P{p}", ptype, info, lb, want, rel, comment))
                books.append({"BOOK": f"B{s}{b}", "name": f"Book {s}{b}", "content": pages})
            cat.append({"SHELF": f"S{s}", "name": f"Shelf {s}", "content": books})
        with open(os.path.join(top, "catalog-nk.yml"), "w", encoding="utf8") as f:
            yaml.safe_dump(cat, f, allow_unicode=True)
        with located(top):
            db = RII()
            E.true("rows", len(db.catalog) == len(listed))
            for i, (sh, shl, div, b, bl, p, pt, info, lb, want, rel, comment) in enumerate(listed):
                row = db.catalog.loc[i]

                def eq(x, y):
                    return bool(pd.isna(x)) if y is None else bool(x == y)
                E.true("names", all(eq(row[k], v) for k, v in (("shelf", sh), ("shelf_longname", shl), ("book", b), ("book_longname", bl), ("page", p), ("book_divider", div), ("page_type", pt))))
                E.true("author", eq(row["author"], info[0]))
                E.true("year", eq(row["year"], info[1]))
                E.true("comment", eq(row["comment"], info[2]) or (info[2] == "" and eq(row["comment"], "")))
                for k, v in (("lower_range", info[3]), ("upper_range", info[4])):
                    E.true("range in nm", bool(pd.isna(row[k])) if v is None else abs(float(row[k]) - v) < 1e-6 * v)
                d = db.get_dispersion(b, p)
                E.eq("index", d.get_refractive_index(1000 * lb) + 0j, want, rtol=1e-9)
                E.true("reference", db.get_reference(b, p) == f"ref{b[1:]}".replace("ref", "ref ") + p[1:])
                E.true("comment of the entry", db.get_comment(b, p) == comment)
            E.true("search", set(db.search("P0", column="page", fuzzy=False).index) == {i for i, l in enumerate(listed) if l[5] == "P0"})
            E.raises("unknown", ValueError, lambda: db.get_dispersion("B00", "P9"))
