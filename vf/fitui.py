"""Contracts of what the fit classes use to show things (plotly figures, ipywidgets) for tables with arbitrarily many rows:
a figure holds the traces it is given, a widget its settings and callbacks.  With concrete data the real libraries are used."""
import types
from contextlib import contextmanager

from .sym import Unsupported

USED = [None]


def _note(what, text):
    if USED[0]:
        USED[0](what, text)


class Trace:
    def __init__(self, x=None, y=None, name=None, **k):
        self.x, self.y, self.name = x, y, name


class Figure:
    def __init__(self, of=None, *a, **k):
        _note("plotly figures", "hold the traces they are given, in that order")
        self.data = list(of.data) if isinstance(of, Figure) else list(of) if of is not None else []

    def add_trace(self, t, row=None, col=None):
        t.place = (row, col)
        self.data.append(t)
        return self

    @contextmanager
    def batch_update(self):
        yield

    def _same(self, *a, **k):
        return self

    update_layout = update_xaxes = update_yaxes = update_traces = _same


def plot(table, backend=None, **k):
    if backend != "plotly" or k:
        raise Unsupported("plot of a table")
    return Figure([Trace(table.index, table.columns_of(c), c) for c in table.columns])


class Widget:
    def __init__(self, value=None, **k):
        _note("ipywidgets", "hold their settings and callbacks; a changed value calls the callbacks; bounded boxes hold the nearest value inside")
        self.callbacks = []
        self.__dict__.update(k)
        self._value = self.inside(value)

    def inside(self, v):
        return v

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        v = self.inside(v)
        if v is self._value or bool(v == self._value):
            return
        self._value = v
        for f in list(self.callbacks):
            f(types.SimpleNamespace(owner=self, new=v, name="value"))

    def observe(self, f, names=None):
        self.callbacks.append(f)

    def unobserve(self, f, names=None):
        self.callbacks = [g for g in self.callbacks if g != f]

    on_click = observe


class _Any:
    def __init__(self, *a, **k):
        self.args, self.__dict__ = a, dict(k)


def widgets(real):
    class FloatText(Widget):
        def inside(self, v):
            return getattr(v, "value", v)     # float(parameter)

    class BoundedFloatText(FloatText):
        min, max = 0.0, 100.0

        def inside(self, v):
            v = getattr(v, "value", v)
            if bool(v < self.min):
                return self.min
            return self.max if bool(v > self.max) else v
    m = types.SimpleNamespace(Dropdown=Widget, Checkbox=Widget, Button=Widget, BoundedFloatText=BoundedFloatText, FloatText=FloatText)
    for n in ("HBox", "VBox", "Layout"):
        setattr(m, n, _Any)
    return m


def graph_objects(real):
    return types.SimpleNamespace(Figure=Figure, FigureWidget=Figure, Scatter=Trace)


def make_subplots(*a, **k):
    return Figure()


def replacements(put):
    """put(real object, replacement) for those libraries that are loaded"""
    import sys
    w = sys.modules.get("ipywidgets.widgets")
    if w is not None:
        put(w, widgets(w))
    g = sys.modules.get("plotly.graph_objects")
    if g is not None:
        put(g, graph_objects(g))
    s = sys.modules.get("plotly.subplots")
    if s is not None:
        put(s.make_subplots, make_subplots)
