"""Contract of pandas tables with an arbitrary number of rows: columns held by position against an index.

Used when the rows are an axis of arbitrary length; with concrete data the real pandas is used."""
from . import sym as S
from .sym import Sym, SymArray, SymLen, Unsupported

USED = [None]


def _note():
    if USED[0]:
        USED[0]("pandas tables of arbitrarily many rows",
                "columns are held by position against the index; apply(f, axis=1) and elementwise operations act row by row; "
                "concat(axis=1) of tables with the same index sets the columns side by side")


def array(x):
    return x.data if isinstance(x, (SymSeries, SymIndex)) else x


def rowwise(f, *a):
    """f of one row; a branch on the row's values would differ from row to row"""
    def decide(n):
        raise Unsupported("row by row function with a branch")
    old = S.Hooks.decide
    S.Hooks.decide = decide
    try:
        return f(*a)
    finally:
        S.Hooks.decide = old


def generic(a):
    """the generic element as a scalar"""
    return Sym(a.a.reshape(-1)[0], a.kind)


class _Sized:
    _vf_split = True      # numpy functions come to _np
    _vf_frame = True
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def _vf_len(self):
        return SymLen(self.dim)

    def __len__(self):
        raise Unsupported("length of a table with arbitrarily many rows")

    def __bool__(self):
        raise ValueError("The truth value of a table is ambiguous")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k} with an arbitrary number of rows")


class SymIndex(_Sized):
    def __init__(self, data, name=None):
        self.data, self.name = data, name
        self.dim = data.dims[0]

    @property
    def values(self):
        return self.data

    def to_numpy(self, *a, **k):
        return self.data

    array = values

    def copy(self, *a, **k):
        return self

    def rename(self, name):
        return SymIndex(self.data, name)

    def _np(self, name, a, k):
        return _call(name, [array(x) for x in a], k)


def _call(name, a, k):
    from . import shims
    f = shims.NP.get(name)
    if f is None:
        raise Unsupported(f"np.{name} of a table")
    return f(*a, **k)


class SymRange(_Sized):
    """row numbers"""

    def __init__(self, dim):
        self.dim, self.name = dim, None


class SymSeries(_Sized):
    def __init__(self, data, index, name=None):
        if data.a.ndim != 1 or data.dims[0] is None:
            raise Unsupported("column")
        self.data, self.index, self.name = data, index, name
        self.dim = data.dims[0]

    @property
    def values(self):
        return self.data

    def to_numpy(self, *a, **k):
        return self.data

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def shape(self):
        return self.data.shape

    def copy(self, *a, **k):
        return SymSeries(self.data.copy(), self.index, self.name)

    def apply(self, f):
        _note()
        r = rowwise(f, generic(self.data))
        if not isinstance(r, (Sym, int, float, complex)):
            raise Unsupported("apply with such a function")
        from . import terms as T
        a = S.vec(lambda n: r.node if isinstance(r, Sym) else T.lift(r), self.data.a)
        return SymSeries(SymArray(a, self.data.dims, S.kind_of(r)), self.index, self.name)

    map = apply

    def astype(self, dt):
        return SymSeries(self.data.astype(dt), self.index, self.name)

    def to_frame(self, name=None):
        return SymFrame({name if name is not None else self.name if self.name is not None else 0: self.data}, self.index)

    def _wrap(self, v):
        if isinstance(v, SymArray) and v.a.ndim == 1 and v.dims[0] is self.dim:
            return SymSeries(v, self.index, self.name)
        raise Unsupported("operation on a column")

    def _np(self, name, a, k):
        r = _call(name, [array(x) for x in a], k)
        if name in S.UN or name in S.BIN:
            return self._wrap(r)
        return r

    def _op(self, name, o, swap=False):
        if isinstance(o, SymSeries) and o.index is not self.index:
            raise Unsupported("columns with different indices")
        if isinstance(o, SymFrame):
            return NotImplemented
        p, q = self.data, array(o)
        r = S.binary(name, q, p) if swap else S.binary(name, p, q)
        return r if isinstance(o, SymIndex) else self._wrap(r)

    def __neg__(self):
        return self._wrap(S.unary("negative", self.data))

    def __abs__(self):
        return self._wrap(S.unary("absolute", self.data))


for _m, _n in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power"), ("mod", "mod")):
    setattr(SymSeries, f"__{_m}__", lambda s, o, _n=_n: s._op(_n, o))
    setattr(SymSeries, f"__r{_m}__", lambda s, o, _n=_n: s._op(_n, o, True))


class Row:
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._d:
            return self._d[k]
        raise Unsupported("row attribute")


class Loc:
    def __init__(self, f, by):
        self.f, self.by = f, by

    def __getitem__(self, i):
        if not isinstance(i, tuple) or len(i) != 2 or i[0] != slice(None):
            raise Unsupported("row selection")
        cols = self.f.columns
        j = i[1]
        if self.by == "pos" and isinstance(j, int):
            return self.f[cols[j]]
        if self.by == "name" and (isinstance(j, str) or isinstance(j, list)):
            return self.f[j]
        raise Unsupported("column selection")


class SymFrame(_Sized):
    def __init__(self, data, index):
        self.cols = {k: array(v) for k, v in data.items()}
        self.index = index
        self.dim = next(v.dims[0] for v in self.cols.values() if isinstance(v, SymArray) and v.dims[0] is not None)

    @property
    def data(self):
        return self.cols

    @property
    def columns(self):
        return list(self.cols)

    def __getitem__(self, k):
        if isinstance(k, list):
            return SymFrame({c: self.cols[c] for c in k}, self.index)
        return SymSeries(self.cols[k], self.index, k)

    def columns_of(self, k):
        return self[k]

    def plot(self, *a, **k):
        from . import fitui
        return fitui.plot(self, *a, **k)

    def __setitem__(self, k, v):
        if isinstance(v, SymSeries) and v.index is not self.index:
            raise Unsupported("columns with different indices")
        if not isinstance(v, (SymSeries, SymIndex, SymArray)) or array(v).dims != (self.dim,):
            raise Unsupported("new column")
        self.cols[k] = array(v)

    def set_index(self, k, inplace=False, drop=True):
        if not isinstance(k, str) or not drop:
            raise Unsupported("set_index")
        i = SymIndex(self.cols[k], k)
        cols = {c: v for c, v in self.cols.items() if c != k}
        if inplace:
            self.cols, self.index = cols, i
            return None
        r = SymFrame.__new__(SymFrame)
        r.cols, r.index, r.dim = cols, i, self.dim
        return r

    def __iter__(self):
        return iter(list(self.cols))

    def __contains__(self, k):
        return k in self.cols

    def items(self):
        return [(k, self[k]) for k in self.cols]

    @property
    def loc(self):
        return Loc(self, "name")

    @property
    def iloc(self):
        return Loc(self, "pos")

    @property
    def values(self):
        _note()
        return S.stack(list(self.cols.values()), 1)

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def shape(self):
        return (SymLen(self.dim), len(self.cols))

    def copy(self, *a, **k):
        return SymFrame({k: v.copy() for k, v in self.cols.items()}, self.index)

    def apply(self, f, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("apply along the rows")
        _note()
        r = rowwise(f, Row({k: generic(v) for k, v in self.cols.items()}))
        if not isinstance(r, Sym):
            raise Unsupported("apply with such a function")
        v = next(iter(self.cols.values()))
        a = S.vec(lambda n: r.node, v.a)
        return SymSeries(SymArray(a, v.dims, r.kind), self.index)

    def _zip(self, o, name, swap=False):
        if isinstance(o, SymFrame):
            if o.index is not self.index or o.columns != self.columns:
                raise Unsupported("tables with different labels")
            return SymFrame({k: S.binary(name, v, o.cols[k]) for k, v in self.cols.items()}, self.index)
        if isinstance(o, (Sym, int, float, complex)):
            return SymFrame({k: S.binary(name, o, v) if swap else S.binary(name, v, o) for k, v in self.cols.items()}, self.index)
        return NotImplemented

    def _np(self, name, a, k):
        if name in S.UN or name in S.BIN:
            # elementwise, and the result is a table again
            if any(isinstance(x, SymFrame) and (x.index is not self.index or x.columns != self.columns) for x in a) or not all(
                    isinstance(x, (SymFrame, Sym, int, float, complex)) for x in a):
                raise Unsupported("tables with different labels")
            return SymFrame({c: _call(name, [x.cols[c] if isinstance(x, SymFrame) else x for x in a], k) for c in self.cols}, self.index)
        return _call(name, [x.values if isinstance(x, SymFrame) else array(x) for x in a], k)


for _m, _n in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide")):
    setattr(SymFrame, f"__{_m}__", lambda s, o, _n=_n: s._zip(o, _n))
    setattr(SymFrame, f"__r{_m}__", lambda s, o, _n=_n: s._zip(o, _n, True))


class Stacked:
    """tables set one below the other: only to be drawn"""

    def __init__(self, tables):
        self.tables, self.index = tables, None
        self.columns = []
        for t in tables:
            self.columns += [c for c in t.columns if c not in self.columns]

    def columns_of(self, k):
        return Pieces([t[k] if k in t else None for t in self.tables])

    def plot(self, *a, **k):
        from . import fitui
        return fitui.plot(self, *a, **k)

    def __getattr__(self, k):
        raise Unsupported(f"{k} of tables set below one another")


class Pieces:
    """a column of such tables; None where a table does not have it"""

    def __init__(self, parts):
        self.parts = parts

    def __getattr__(self, k):
        raise Unsupported(f"{k} of tables set below one another")


def concat(objs, axis=0, **k):
    if axis in (0, "index") and not k and not isinstance(objs, dict) and all(isinstance(o, SymFrame) for o in objs):
        _note()
        return Stacked(list(objs))
    if axis not in (1, "columns") or k:
        raise Unsupported("concat of tables with arbitrarily many rows")
    _note()
    items = list(objs.items()) if isinstance(objs, dict) else [(None, o) for o in objs]
    cols, n = {}, 0
    index = items[0][1].index
    for key, o in items:
        if o.index is not index:
            raise Unsupported("tables with different indices")
        if isinstance(o, SymSeries):
            name = key if key is not None else o.name
            if name is None:
                name, n = n, n + 1
            if name in cols:
                raise Unsupported("repeated column")
            cols[name] = o.data
        elif key is None:
            for c, v in o.cols.items():
                if c in cols:
                    raise Unsupported("repeated column")
                cols[c] = v
        else:
            raise Unsupported("nested columns")
    return SymFrame(cols, index)


def frame_of(data, index, columns=None):
    """a table from a one- or two-dimensional array"""
    if isinstance(data, SymSeries):
        return data.to_frame() if index is None or index is data.index else SymFrame({0: data.data}, index)
    if data.a.ndim == 1:
        cols = list(columns) if columns is not None else [0]
        if len(cols) != 1:
            raise ValueError("Shape of passed values")
        return SymFrame({cols[0]: data}, index)
    if data.a.ndim != 2 or data.dims[0] is None or data.dims[1] is not None:
        raise Unsupported("table of such an array")
    cols = list(columns) if columns is not None else list(range(data.a.shape[1]))
    if len(cols) != data.a.shape[1]:
        raise ValueError("Shape of passed values")
    return SymFrame({c: data[:, i] for i, c in enumerate(cols)}, index)


def table(E, cols, index, name="Wavelength"):
    """a table of the given columns in either world"""
    if E.sym:
        return SymFrame(cols, SymIndex(index, name))
    import pandas as pd
    return pd.DataFrame(cols, index=pd.Index(index, name=name))


def series(E, data, index, name="Wavelength"):
    if E.sym:
        return SymSeries(data, SymIndex(index, name))
    import pandas as pd
    return pd.Series(data, index=pd.Index(index, name=name))


def column(t, name):
    """the values of a column, in either world"""
    return t[name].to_numpy()


class Text(str):
    """a text that holds a table of numbers with arbitrarily many rows"""

    def __new__(cls, columns):
        t = super().__new__(cls, "")
        t.table = columns
        return t


class TextIO:
    def __init__(self, text):
        self.text = text


def string_io(real):
    def StringIO(text="", *a, **k):
        return TextIO(text) if isinstance(text, Text) else real(text, *a, **k)
    return StringIO


def read(real, default):
    """pandas.read_table / read_csv of such a text"""
    def f(src, *a, **k):
        if not isinstance(src, TextIO):
            return with_tokens(real(src, *a, **k)) if TOKENS else real(src, *a, **k)
        sep = k.pop("sep", k.pop("delimiter", a[0] if a else default))
        if k.pop("delim_whitespace", False):
            sep = "\\s+"
        names, header = k.pop("names", None), k.pop("header", None)
        if len(a) > 1 or k or header is not None or names is None or sep not in ("\\s+", r"[ ]+", r"\s+"):
            raise Unsupported("reading of such a text")
        if len(names) != len(src.text.table):
            raise Unsupported("reading of a text with other columns")
        if USED[0]:
            USED[0]("pandas.read_table(text, sep=whitespace, names)", "the numbers of the text, row by row, in columns of these names")
        return SymFrame(dict(zip(names, src.text.table)), SymRange(src.text.table[0].dims[0]))
    return f


def interpolated(E, x, y, p):
    """piecewise linear interpolation of the points (x, y), in any order, at p, in either world"""
    if E.sym:
        from .shims import TableInterp
        return TableInterp(x, y)(p)
    import numpy as np
    o = np.argsort(x)
    x, y = np.asarray(x)[o], np.asarray(y)[o]
    return np.interp(p, x, y.real) + 1j * np.interp(p, x, y.imag)


# ------------------------------------------------------------------------------------------------ files of numbers
# numbers (as they are written in a file) that stand for arbitrary ones; set by `standing_for`
TOKENS = {}


class standing_for:
    """within this context the numbers read from a file are replaced by the arbitrary numbers they stand for"""

    def __init__(self, tokens):
        self.tokens = tokens

    def __enter__(self):
        TOKENS.update(self.tokens)
        return self

    def __exit__(self, *a):
        TOKENS.clear()
        return False


def with_tokens(df):
    """the table read from a file, its numbers replaced by what they stand for (labels of rows and columns are left as they are)"""
    import pandas as pd

    class TokenFrame(pd.DataFrame):
        @property
        def _constructor(self):
            return TokenFrame

        def astype(self, dt, *a, **k):
            if dt in (float, "float", "float64"):
                out = self.copy()
                for c in range(out.shape[1]):
                    out.isetitem(c, pd.Series([v if isinstance(v, Sym) else number(float(v)) for v in out.iloc[:, c]], index=out.index, dtype=object))
                return out
            return super().astype(dt, *a, **k)

    def number(v):
        return TOKENS.get(v, v) if isinstance(v, float) else v
    if USED[0]:
        USED[0]("pandas.read_csv of a file", "the numbers written in the file (the real reader is run on numbers that stand for arbitrary ones)")
    out = TokenFrame(df)
    for c in range(out.shape[1]):
        col = [number(v) for v in out.iloc[:, c]]
        if any(isinstance(v, Sym) for v in col):
            out.isetitem(c, pd.Series(col, index=out.index, dtype=object))
    return out


class ProductIndex:
    """all pairs of some angles and arbitrarily many wavelengths"""

    def __init__(self, first, axis, names):
        self.first, self.axis, self.names = list(first), axis, list(names or [])
        self.dim = axis.dims[0]


def from_product(real):
    def f(levels, *a, names=None, **k):
        lv = list(levels)
        if len(lv) == 2 and isinstance(lv[1], S.SymArray) and lv[1].dims and lv[1].dims[0] is not None:
            if a or k or (isinstance(lv[0], S.SymArray) and lv[0].dims[0] is not None):
                raise Unsupported("index over such a product")
            if USED[0]:
                USED[0]("pandas.MultiIndex.from_product, DataFrame.loc[angle, column] = array",
                        "the rows of this angle (angles are different), in the order of the wavelengths")
            return ProductIndex([lv[0][i] for i in range(lv[0].a.shape[0])] if isinstance(lv[0], S.SymArray) else lv[0], lv[1], names)
        return real(levels, *a, names=names, **k)
    return f


class _ProductLoc:
    def __init__(self, f):
        self.f = f

    def _at(self, i):
        if not isinstance(i, tuple) or len(i) != 2 or i[1] not in self.f.columns:
            raise Unsupported("selection of such rows")
        return self.f.at(i[0]), i[1]

    def __setitem__(self, i, v):
        b, c = self._at(i)
        if not isinstance(v, S.SymArray) or v.dims != (self.f.index.dim,):
            raise Unsupported("values of such rows")
        b[c] = v

    def __getitem__(self, i):
        b, c = self._at(i)
        return SymSeries(b[c], SymIndex(self.f.index.axis, self.f.index.names[1]), c)


class ProductFrame:
    _vf_frame = True

    def __init__(self, columns, index, blocks=None):
        self.columns, self.index = list(columns), index
        self.blocks = blocks or [{c: None for c in self.columns} for _ in index.first]

    def at(self, key):
        for k, b in zip(self.index.first, self.blocks):
            if k is key or (isinstance(k, Sym) and isinstance(key, Sym) and k.node is key.node) or (
                    not isinstance(k, Sym) and not isinstance(key, Sym) and k == key):
                return b
        raise Unsupported("an angle that is not in the table")

    @property
    def loc(self):
        return _ProductLoc(self)

    def apply(self, f, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("apply along the rows")
        from . import terms as T
        out = []
        for b in self.blocks:
            r = rowwise(f, Row({k: generic(v) for k, v in b.items()}))
            if not isinstance(r, Sym):
                raise Unsupported("apply with such a function")
            v = next(iter(b.values()))
            out.append({None: SymArray(S.vec(lambda n: r.node, v.a), v.dims, r.kind)})
        return ProductFrame([None], self.index, out)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{k} of a table over angles and wavelengths")


def block(t, key, name=None):
    """the values of one angle, in either world"""
    if isinstance(t, ProductFrame):
        return t.at(key)[name]
    return (t.loc[key] if name is None else t.loc[key, name]).to_numpy()
