"""C26 parameter history

One contract per operation, for a history of arbitrary length and arbitrary maximum (vf/anylist.py): what the operation does to the
current values, to the list of saved sets and what it returns.  Every history of operations is covered by induction over its
length.  The class's base, lmfit's Parameters, is executed symbolically as well.  `walk` runs whole histories through the public
interface only."""
import numpy as np

from elli.fitting.params_hist import ParamsHist
from lmfit import Parameters
from .. import indexed as I
from ..anylist import AnyList, Stretch
from ..engine import harness
from ..ring import Unsupported

LIM = (0, 5)


def params(E, tag, cls=ParamsHist):
    p = cls()
    p.add("a", value=E.real("a" + tag, -1000, 1000), vary=tag != "")
    p.add("b", value=E.real("b" + tag, *LIM), min=LIM[0], max=LIM[1])
    return p


def snap(p):
    return {k: (v.value, v.min, v.max, v.vary, v.expr) for k, v in p.items()}


def same(E, label, p, want):
    E.true(label + ": names", list(p) == list(want))
    for k, (v, lo, hi, vary, ex) in want.items():
        if k in p:
            E.eq(f"{label}: {k}", p[k].value, v)
            E.true(f"{label}: settings", (p[k].min, p[k].max, bool(p[k].vary), p[k].expr) == (lo, hi, bool(vary), ex))


def disturb(E, p, tag):
    """the current parameters get other values and settings"""
    for k in list(p):
        if p[k].expr is None:
            p[k].value = E.real(f"{k} later{tag}", *(LIM if k == "b" else (-1000, 1000)))
            p[k].vary = not p[k].vary


class State:
    """parameters with a history of n sets, the known ones of which are listed in `known` (positions from the end or from the front)"""

    def __init__(self, E, room=None):
        self.E = E
        self.ph = params(E, "")
        self.max = E.integer("max", 1, None if E.sym else 6)

    def history(self, *parts):
        """parts: "x" for an arbitrary number of arbitrary sets, or a parameter set"""
        E, ph = self.E, self.ph
        self.counts, segs, flat = [], [], []
        for i, s in enumerate(parts):
            if isinstance(s, str):
                n = E.integer("n" + s, 0, None if E.sym else 5)
                self.counts.append(n)
                segs.append(Stretch(s, 0, n))
                if not E.sym:
                    for j in range(n):
                        q = params(E, f" {s}{j}")
                        flat.append(q)
            else:
                segs.append(s)
                flat.append(s)
        self.n = sum(self.counts) + sum(not isinstance(s, str) for s in parts)
        E.assume(self.n <= self.max)
        if E.sym:
            if not isinstance(getattr(ph, "_history", None), list) or not hasattr(ph, "_max_length"):
                raise Unsupported("the history is kept in another way")
            ph._history, ph._max_length = AnyList(segs), self.max
            self.old = AnyList([s if isinstance(s, Stretch) else snap(s) for s in segs])
        else:
            # through the public interface
            now = snap(ph)
            ph.max_history_len = self.max
            for q in flat:
                for k in q:
                    ph[k].value, ph[k].vary = q[k].value, q[k].vary
                ph.commit()
            for k in now:
                ph[k].value, ph[k].vary = now[k][0], now[k][3]
            self.old = [snap(q) for q in flat]
        self.now = snap(ph)
        return ph

    def expect(self, label, lo, hi, new=()):
        """the history is old[lo:hi] followed by the sets new (given as snapshots)"""
        E, H = self.E, self.ph.history
        if not E.sym:
            got = [snap(q) for q in H]
            want = self.old[lo:hi] + list(new)
            E.true(label + ": length", len(got) == len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                same(E, label, H[i], w)
            return
        if isinstance(H, list) and not isinstance(H, AnyList):
            H = AnyList(H)
        want = self.old[lo:hi].segs + list(new)
        want = [s for s in want if not isinstance(s, Stretch) or I.less(0, s.n)]
        got = [s for s in H.segs if not isinstance(s, Stretch) or I.less(0, s.n)]
        E.true(label + ": length", len(want) == len(got))
        for g, w in zip(got, want):
            if isinstance(g, Stretch) or isinstance(w, Stretch):
                ok = isinstance(g, Stretch) and isinstance(w, Stretch) and g.base == w.base
                E.true(label + ": older sets", ok)
                if ok:
                    for a, b in ((g.lo, w.lo), (g.hi, w.hi)):
                        E.true(label + ": older sets", True if I.follows("==", a, b) else a == b)
            else:
                same(E, label, g, w)

    def within(self):
        self.E.true("at most the maximum", self.ph.history_len <= self.ph.max_history_len)


SAVE = ["commit", "update_value a", "update_value b", "update_params", "tracked_add"]


@harness("C26", n=80, maxpaths=400)
def save(E):
    """everything that saves the current set first"""
    S = State(E)
    ph = S.history("x")
    op = E.choose("operation", SAVE)
    want = dict(S.now)

    def put(d, k, v):
        d[k] = (v,) + d[k][1:]
    other = None
    if op == "commit":
        r = ph.commit()
    elif op.startswith("update_value"):
        k = op[-1]
        v = E.real("new", *(LIM if k == "b" else (-1000, 1000)))
        ph.update_value(k, v)
        put(want, k, v)
    elif op == "update_params":
        other = params(E, " given", E.choose("given as", [ParamsHist, Parameters]))
        ph.update_params(other)
        want = snap(other)
    else:
        v = E.real("new", -1000, 1000)
        ph.tracked_add("c", value=v)
        want["c"] = (v, -np.inf, np.inf, True, None)
    same(E, "current", ph, want)
    given = snap(other) if other is not None else None
    disturb(E, ph, "")
    drop = 1 if bool(S.n == S.max) else 0
    S.expect("history", drop, S.n, [S.now])
    if given is not None:
        same(E, "the set handed in", other, given)
    S.within()


@harness("C26", n=60, maxpaths=300)
def pop(E):
    S = State(E)
    last = params(E, " last")
    added = E.choose("last change", ["values", "an added parameter"])
    saved = snap(last)
    if added != "values":
        # a parameter added since then
        S.ph.add("c", value=E.real("c", -1000, 1000))
    if E.sym:
        ph = S.history("x", last)
    else:
        c = S.ph["c"].value if "c" in S.ph else None
        if c is not None:
            del S.ph["c"]
        ph = S.history("x", last)
        if c is not None:
            ph.add("c", value=c)
    now = snap(ph)
    r = ph.pop()
    same(E, "returned", r, now)
    same(E, "current", ph, saved)
    S.expect("history", 0, S.n - 1)
    disturb(E, ph, "")
    same(E, "returned", r, now)


@harness("C26", n=24)
def empty(E):
    """nothing saved: nothing happens"""
    S = State(E)
    ph = S.ph
    for p in [params(E, " cleared")] if E.choose("before", ["nothing", "cleared"]) == "cleared" else []:
        ph.update_params(p)
        ph.clear_history()
    now = snap(ph)
    E.true("nothing returned", ph.pop() is None)
    same(E, "pop", ph, now)
    ph.revert(E.choose("position", [0, -1, 3]))
    same(E, "revert", ph, now)
    E.true("still empty", ph.history_len == 0 and len(ph.history) == 0)


@harness("C26", n=80, maxpaths=300)
def revert(E):
    """to any position, counted from either end; everything is kept"""
    S = State(E)
    one = params(E, " one")
    saved = snap(one)
    ph = S.history("x", one, "y")
    pos = S.counts[0] if E.choose("counted from", ["front", "end"]) == "front" else -1 - S.counts[1]
    ph.revert(pos)
    same(E, "current", ph, saved)
    S.expect("history", 0, S.n)
    disturb(E, ph, "")
    same(E, "saved set after later changes", ph.history[S.counts[0]], saved)
    if not E.sym:
        S.expect("history after later changes", 0, S.n)


@harness("C26", n=60, maxpaths=200)
def maximum(E):
    S = State(E)
    ph = S.history("x")
    new = E.integer("new maximum", 1, None if E.sym else 8)
    ph.max_history_len = new
    same(E, "current", ph, S.now)
    S.expect("history", S.n - new if bool(S.n > new) else 0, S.n)
    E.eq("maximum", ph.max_history_len, new)
    S.within()


@harness("C26", n=24)
def maximum_refused(E):
    S = State(E)
    ph = S.history("x")
    bad = E.choose("value", [0, -1, 1.5, "3", None, 2.0])

    def go():
        ph.max_history_len = bad
    E.raises("refused", (ValueError,), go)
    same(E, "current", ph, S.now)
    S.expect("history", 0, S.n)
    E.eq("maximum", ph.max_history_len, S.max)


@harness("C26", n=30)
def saved_set_taken_over(E):
    """a saved set handed to update_params stays what it was"""
    S = State(E)
    one = params(E, " one")
    ph = S.ph
    saved = snap(one)
    ph.update_params(one)
    ph.update_value("a", E.real("first", -1000, 1000))
    ph.update_params(ph.history[1])
    same(E, "current", ph, saved)
    disturb(E, ph, "")
    same(E, "saved", ph.history[1], saved)


@harness("C26", n=24)
def constrained(E):
    """parameters given by an expression of others"""
    ph = ParamsHist()
    a0, a1, a2 = (E.real(f"a{i}", -1000, 1000) for i in range(3))
    ph.add("a", value=a0)
    ph.add("c", expr="2*a+1")
    ph.update_value("a", a1)
    E.eq("after the first change", ph["c"].value, 2 * a1 + 1)
    ph.update_value("a", a2)
    E.eq("after the second change", ph["c"].value, 2 * a2 + 1)
    E.eq("saved", ph.history[0]["c"].value, 2 * a0 + 1)
    E.eq("saved later", ph.history[1]["c"].value, 2 * a1 + 1)
    r = ph.pop()
    E.eq("after undo", ph["c"].value, 2 * a1 + 1)
    E.eq("returned", r["c"].value, 2 * a2 + 1)
    ph["a"].value = a2
    E.eq("follows again", ph["c"].value, 2 * a2 + 1)
    E.true("expression", ph["c"].expr == "2*a+1")


STEPS = ["value a", "value b", "params", "commit", "pop", "revert 0", "revert -1", "max 1", "max 2", "max 3", "direct"]


def step(E, ph, H, M, op, i):
    """the specification of one operation on the list H of snapshots; returns the maximum"""
    def save():
        H.append(snap(ph))
        while len(H) > M:
            del H[0]
    k, _, arg = op.partition(" ")
    want, r = snap(ph), None
    before = snap(ph)
    if k == "value":
        v = E.real(f"v{i}", *(LIM if arg == "b" else (-1000, 1000)))
        save()
        ph.update_value(arg, v)
        want[arg] = (v,) + want[arg][1:]
    elif k == "params":
        q = params(E, f" {i}")
        save()
        ph.update_params(q)
        want = snap(q)
    elif k == "commit":
        save()
        ph.commit()
    elif k == "pop":
        r = ph.pop()
        if H:
            want = H.pop()
            same(E, "returned", r, before)
        else:
            E.true("nothing returned", r is None)
    elif k == "revert":
        if H:
            ph.revert(int(arg))
            want = H[int(arg)]
    elif k == "max":
        M = int(arg)
        ph.max_history_len = M
        del H[:max(0, len(H) - M)]
    else:
        disturb(E, ph, str(i))
        want = snap(ph)
    same(E, "current", ph, want)
    E.true("length", ph.history_len == len(H) == len(ph.history))
    for g, w in zip(ph.history, H):
        same(E, "history", g, w)
    E.true("at most the maximum", ph.history_len <= ph.max_history_len)
    return M


@harness("C26", n=60, bounded="histories of three operations", maxpaths=1600, weight=2)
def walk(E):
    ph = params(E, "")
    H, M = [], 50
    M = step(E, ph, H, M, "max 2", 0)
    for i in range(3):
        M = step(E, ph, H, M, E.choose(f"step {i}", ["value a", "params", "commit", "pop", "revert 0", "max 1", "direct"]), i)


@harness("C26", n=60, sym=False, bounded="histories of 40 operations, sampled")
def long_walk(E):
    ph = params(E, "")
    H, M = [], 50
    for i in range(40):
        M = step(E, ph, H, M, E.choose(f"step {i}", STEPS), i)
