"""Stacks with arbitrarily many layers: the loop rule for code that runs over a permittivity profile.

A Profile is what Structure.get_permittivity_profile returns, except that it may contain Segments: arbitrarily many
slices known only by the contract of one slice.  When code of /repo runs a for loop over it, a Segment is treated by the
loop rule: the loop-carried variable is found in the loop's byte code, its value on entry is recorded, and the
execution forks into
  * one iteration for an arbitrary slice, started in an arbitrary state satisfying the invariant
    (state = G @ entry value, G any matrix), after which the invariant with G' = P(slice) @ G is an obligation, and
  * the code after the loop, in the state G @ entry value with the ghost matrix G of the whole segment.
Code that uses the profile in any other way is not supported (the harness is then undecided, never an alarm)."""
from __future__ import annotations
import ctypes
import dis
import sys

import numpy as np

import elli
from elli.solver4x4 import Solver4x4, Propagator, PropagatorExpm, PropagatorEig

from .engine import PathEnd
from .sym import SymArray, Sym, Unsupported, parts
from . import terms as T
from . import sym as S


# --------------------------------------------------------------------------------------------- the loop's variables
def loop_carried(frame):
    """names stored in the innermost for loop being entered, whose first access in the body is not a store"""
    ins = list(dis.get_instructions(frame.f_code))
    k = next((i for i, x in enumerate(ins) if x.offset == frame.f_lasti), None)
    if k is None or ins[k].opname != "FOR_ITER":
        raise Unsupported("a permittivity profile of arbitrary length is not used in a for loop")
    end = ins[k].argval
    body = [x for x in ins[k + 1:] if x.offset < end]
    straight = True
    first, stored = {}, set()
    for x in body:
        if x.opname.startswith(("POP_JUMP", "JUMP_FORWARD", "FOR_ITER", "SEND")):
            straight = False
        for op, name in accesses(x):
            if op == "S":
                stored.add(name)
                if name not in first:
                    first[name] = "S" if straight else "L"
            else:
                first.setdefault(name, "L")
    return [n for n in stored if first[n] == "L"], bool(stored)


def instruction(frame):
    return next((x.opname for x in dis.get_instructions(frame.f_code) if x.offset == frame.f_lasti), None)


def loop_body(frame):
    """names carried from one round to the next by the loop or comprehension that is being entered"""
    ins = list(dis.get_instructions(frame.f_code))
    k = next((i for i, x in enumerate(ins) if x.offset == frame.f_lasti), None)
    if k is None or ins[k].opname != "GET_ITER":
        raise Unsupported("a list of arbitrarily many members is not used in a loop")
    f = next((i for i in range(k + 1, min(k + 8, len(ins))) if ins[i].opname == "FOR_ITER"), None)
    if f is None:
        if frame.f_code.co_code[ins[k].offset:] and any(x.opname in ("CALL", "PRECALL") for x in ins[k + 1:k + 3]):
            raise Unsupported("a generator over arbitrarily many members")
        raise Unsupported("a list of arbitrarily many members is not used in a loop")
    end = ins[f].argval
    straight, first, stored = True, {}, set()
    for x in ins[f + 1:]:
        if x.offset >= end:
            break
        if x.opname.startswith(("POP_JUMP", "JUMP_FORWARD", "FOR_ITER", "SEND")):
            straight = False
        if x.opname in ("STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "BREAK_LOOP", "RETURN_VALUE", "RETURN_CONST"):
            raise Unsupported("a loop over arbitrarily many members that stores outside of it or leaves early")
        for op, name in accesses(x):
            if op == "S":
                stored.add(name)
                if name not in first:
                    first[name] = "S" if straight else "L"
            else:
                first.setdefault(name, "L")
    return [n for n in stored if first[n] == "L"]


def accesses(x):
    o = x.opname
    if o in ("STORE_FAST", "STORE_DEREF", "STORE_GLOBAL", "STORE_NAME", "DELETE_FAST"):
        return [("S", x.argval)]
    if o == "STORE_FAST_STORE_FAST":
        return [("S", n) for n in x.argval]
    if o in ("STORE_FAST_LOAD_FAST", "STORE_FAST__LOAD_FAST"):
        return [("S", x.argval[0]), ("L", x.argval[1])]
    if o.startswith("LOAD_FAST") or o in ("LOAD_DEREF", "LOAD_NAME"):
        return [("L", n) for n in (x.argval if isinstance(x.argval, tuple) else (x.argval,))]
    return []


def set_local(frame, name, value):
    if name not in frame.f_code.co_varnames:
        raise Unsupported("loop variable that is not a plain local")
    frame.f_locals[name] = value
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class Segment:
    """arbitrarily many slices; `slice_(tag)` draws one, `sizes` are the numbers of slices used in samples"""

    def __init__(self, E, name, d, slice_, sizes=(0, 1, 2, 3), fresh=False):
        self.E, self.name, self.d, self.slice_, self.sizes = E, name, d, slice_, sizes
        self.fresh = fresh        # name the state after the loop (only its relation G @ entry is used)
        self.entry = self.state = None
        self.states = []
        self.prop = None          # the propagator used in the invariant
        self.kx = None
        self.lb = None
        self.ghosts = {}
        self.on_ghost = None      # called with the ghost matrix of the loop state

    def __deepcopy__(self, memo):
        return self

    def ghost(self, tag):
        g = self.ghosts.get(tag)
        if g is None:
            g = self.ghosts[tag] = self.E.carray(f"G[{self.name},{tag}]", (self.d, 4, 4))
            if self.on_ghost:
                self.on_ghost(g)
        return g

    def arbitrary(self):
        """the ghost matrix of the slices before an arbitrary one"""
        return self.E.carray(f"Gk[{self.name}]", (self.d, 4, 4))

    def named(self, entry, backwards):
        """a name for ghost matrix @ entry: equal entries give equal states"""
        for e, b, st in self.states:
            if b == backwards and AnyPropagator.same(self.E.run, e, entry):
                return st
        st = self.E.carray(f"S{len(self.states)}[{self.name}]", (self.d, 4, 4))
        self.states.append((entry, backwards, st))
        return st

    def draw(self):
        """the slices in a sample"""
        k = self.E.choose(f"{self.name}: slices", list(self.sizes))
        return [self.slice_(f"{self.name}{i}") for i in range(k)]


class PointwiseSegment(Segment):
    """a segment whose slices and ghost matrices are functions of the wavelength (set by `at`)"""

    def at(self, lb, kx):
        self.lb, self.kx, self.entry, self.state = lb, kx, None, None
        return self

    def _matrix(self, tag):
        a, d, k, m = parts(self.lb)
        t = np.empty(a.shape + (4, 4), dtype=object)
        for i in np.ndindex(t.shape):
            t[i] = T.fn("ghost", a[i[:-2]], pl=f"{self.name},{tag},{i[-2]}{i[-1]}")
        return S.mk(t, tuple(d) + (None, None), "c")

    def ghost(self, tag):
        return self._matrix(tag)

    def arbitrary(self):
        return self._matrix("k")


class Profile:
    def __init__(self, items, backwards=False):
        self.items = list(items)
        self.backwards = backwards

    def __deepcopy__(self, memo):
        return self

    def _pos(self, i):
        """index counted from the start or the end -> position in items"""
        n = len(self.items)
        if i >= 0:
            if any(isinstance(x, Segment) for x in self.items[:i + 1]):
                raise Unsupported("index into a profile of arbitrary length")
            return i
        if any(isinstance(x, Segment) for x in self.items[n + i:]):
            raise Unsupported("index into a profile of arbitrary length")
        return n + i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step in (None, 1):
                a = 0 if i.start is None else self._edge(i.start)
                b = len(self.items) if i.stop is None else self._edge(i.stop)
                return Profile(self.items[a:b], self.backwards)
            if i.step == -1:
                if i.start is None and i.stop is None:
                    return Profile(self.items[::-1], not self.backwards)
                a = len(self.items) if i.start is None else self._edge(i.start + 1) if i.start != -1 else len(self.items)
                b = 0 if i.stop is None else self._edge(i.stop + 1)
                return Profile(self.items[b:a][::-1], not self.backwards)
            raise Unsupported("slice of a profile of arbitrary length")
        return self.items[self._pos(i)]

    def _edge(self, i):
        n = len(self.items)
        part = self.items[:i] if i >= 0 else self.items[n + i:]
        if any(isinstance(x, Segment) for x in part):
            raise Unsupported("slice of a profile of arbitrary length")
        return i if i >= 0 else n + i

    def __len__(self):
        if any(isinstance(x, Segment) for x in self.items):
            raise Unsupported("length of a profile of arbitrary length")
        return len(self.items)

    def __iter__(self):
        return Walk(self.items, self.backwards)

    def __reversed__(self):
        return Walk(self.items[::-1], not self.backwards)


class Walk:
    """iterator that applies the loop rule to segments"""

    def __init__(self, items, backwards):
        self.items, self.backwards, self.k, self.step = items, backwards, 0, None

    def __iter__(self):
        return self

    def __next__(self):
        frame = sys._getframe(1)
        if self.step is not None:
            name, seg, state, sl = self.step
            new = frame.f_locals.get(name)
            P = seg.prop.calculate_propagation(Solver4x4.build_delta_matrix(seg.kx, sl[1]), -sl[0], seg.lb)
            seg.E.eq("loop invariant: state = propagators of the slices so far @ exit matrix", new, P @ state)
            raise PathEnd()
        while True:
            if self.k >= len(self.items):
                raise StopIteration
            x = self.items[self.k]
            self.k += 1
            if not isinstance(x, Segment):
                return x
            E = x.E
            carried, any_ = loop_carried(frame)
            vars_ = [(n, frame.f_locals.get(n)) for n in carried if n in frame.f_locals]
            if len(vars_) != 1 or not isinstance(vars_[0][1], SymArray) or vars_[0][1].shape[1:] != (4, 4):
                raise Unsupported("the loop over the slices does not carry exactly one matrix")
            name, entry = vars_[0]
            if E.run.choose_index(f"loop {x.name} {self.backwards}", 2) == 1:
                g = x.arbitrary()
                state = g @ entry
                sl = x.slice_(x.name + "*")
                set_local(frame, name, state)
                self.step = (name, x, state, sl)
                return sl
            g = x.ghost("b" if self.backwards else "f")
            x.entry = entry
            x.state = x.named(entry, self.backwards) if x.fresh else g @ entry
            set_local(frame, name, x.state)


class Stack(elli.Structure):
    """a structure whose layers are known only by their profile"""

    def __init__(self, front, tf, items, back, tb):
        super().__init__(front, [], back)
        self._items = (tf, list(items), tb)

    def get_permittivity_profile(self, lbda):
        tf, items, tb = self._items
        if not any(isinstance(x, Segment) for x in items):
            return [(np.inf, tf)] + items + [(np.inf, tb)]
        E = next(x for x in items if isinstance(x, Segment)).E
        if E.sym:
            return Profile([(np.inf, tf)] + items + [(np.inf, tb)])
        out = [(np.inf, tf)]
        for x in items:
            out += x.draw() if isinstance(x, Segment) else [x]
        return out + [(np.inf, tb)]


class AnyPropagator(Propagator):
    """a propagator known only by: equal arguments give equal (invertible) matrices"""

    def __init__(self, E, d, new=None):
        self.E, self.d, self.memo, self.new = E, d, [], new

    def __deepcopy__(self, memo):
        return self

    def calculate_propagation(self, delta, thickness, lbda):
        run = self.E.run
        for i, (D, t, l, P) in enumerate(self.memo):
            if self.same(run, D, delta) and self.same(run, t, thickness) and self.same(run, l, lbda):
                return P
        n = len(self.memo)
        P = self.new(delta, thickness, lbda) if self.new else None
        if P is None:
            P = self.E.carray(f"P{n}", (self.d, 4, 4))
        self.memo.append((delta, thickness, lbda, P))
        return P

    @staticmethod
    def same(run, a, b):
        if a is b:
            return True
        x, xd, _, _ = parts(a)
        y, yd, _, _ = parts(b)
        if x.shape != y.shape or xd != yd:
            return False
        return all(p is q or run.quick_zero(T.sub(p, q)) for p, q in zip(x.flat, y.flat))


def propagator(E, d, new=None, linear=False):
    if E.sym:
        return AnyPropagator(E, d, new)
    return E.choose("propagator", [PropagatorExpm("torch"), PropagatorExpm("scipy"), PropagatorEig()])


def modes(E, n, c, d):
    """fields (Ex, Ey, Hx, Hy) of the waves s+, s-, p+, p- in a medium of index n, c = cosine of the angle"""
    m = E.m
    z, o = 0 * n * c, 1 + 0 * n * c
    rows = [[z, z, c, -c], [o, o, z, z], [-n * c, n * c, z, z], [z, z, n + z, n + z]]
    return m.moveaxis(m.array(rows), 2, 0)
