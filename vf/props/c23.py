"""C23 formula dispersions

The value of a formula is defined by structural induction over the grammar: the contract of every callback of
FormulaTransformer is the arithmetic operation its production stands for (`operations`: arbitrary operands, any number
of wavelengths), and the tree of a formula is the one the usual precedence gives. The second half is decided for all
combinations of two operators with signs and brackets, and for generated formulas up to a stated size; the oracle
evaluates the expression the string was printed from, never the string.
"""
import itertools
import random

import numpy as np
import scipy.constants as sc
from lark.exceptions import LarkError

import elli
from elli import Formula, FormulaIndex
from elli.formula_parser.parser import FormulaTransformer
from ..engine import harness
from .c17 import Fn

SIZE = "formulas of at most twelve operators over four single and two repeated parameters, at most four repeated sets"
CONST = {"1j": 1j, "pi": sc.pi, "eps_0": sc.epsilon_0, "hbar": sc.hbar, "h": sc.h, "c": sc.c}
FUNCS = ["sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside"]
ERR = (ValueError, TypeError, LarkError, NotImplementedError)


def apply(E, name, v):
    m = E.m
    if name == "heaviside":
        return m.where(v > 0, 1 + 0 * v, m.where(v < 0, 0 * v, 0.5 + 0 * v))
    return {"sin": m.sin, "cos": m.cos, "tan": m.tan, "sqrt": m.csqrt, "dawsn": Fn(E).dawsn, "ln": m.log,
            "log": m.log10}[name](v)


# ------------------------------------------------------------------------------------------------ expressions
# an expression is a number, a name, (op, a, b), ("neg", a), ("pos", a), (function, a) or ("sum", a)
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3, "pos": 3, "**": 4}


def level(e):
    return PREC.get(e[0], 9) if isinstance(e, tuple) else 9


def show(e, rnd=None):
    """the formula with no more brackets than the usual precedence needs"""
    sp = (lambda: rnd.choice(["", " ", "  "])) if rnd else (lambda: " ")

    def bracket(x, least):
        s = show(x, rnd)
        return f"({s})" if level(x) < least else s
    if not isinstance(e, tuple):
        return str(e)
    op = e[0]
    if op in ("neg", "pos"):
        return ("-" if op == "neg" else "+") + sp() + bracket(e[1], 3)
    if op == "**":
        a, b = e[1], e[2]
        s = show(b, rnd) if isinstance(b, tuple) and b[0] in ("neg", "pos") and level(b[1]) == 9 else bracket(b, 9)
        return bracket(a, 9) + sp() + "**" + sp() + s
    if op in PREC:
        return bracket(e[1], PREC[op]) + sp() + op + sp() + bracket(e[2], PREC[op] + 1)
    if op == "sum":
        return "sum" + sp() + "[" + show(e[1], rnd) + "]"
    return op + sp() + "(" + sp() + show(e[1], rnd) + sp() + ")"


def value(E, e, env, sets):
    if isinstance(e, (int, float)):
        return float(e)
    if isinstance(e, str):
        return CONST[e] if e in CONST else env[e]
    op = e[0]
    if op == "sum":
        return sum((value(E, e[1], {**env, **s}, None) + 0 * env["x"] for s in sets), 0 * env["x"])
    a = value(E, e[1], env, sets)
    if op == "neg":
        return -a
    if op == "pos":
        return a
    if len(e) == 3:
        b = value(E, e[2], env, sets)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b}[op]()
    return apply(E, op, a)


def names(e):
    if isinstance(e, str):
        return {e}
    return set().union(*(names(x) for x in e[1:])) if isinstance(e, tuple) else set()


def is_real(e):
    return "1j" not in names(e) and "sqrt" not in ops(e)


def ops(e):
    return {e[0]}.union(*(ops(x) for x in e[1:])) if isinstance(e, tuple) else set()


def generate(rnd, n, inside, funcs=True):
    """a random expression with n operators"""
    if n == 0:
        k = rnd.random()
        if k < 0.25:
            return rnd.choice([1, 2, 3, 0.5, 1.5, 2.25, 10])
        if k < 0.35:
            return rnd.choice(["pi", "1j"])
        return rnd.choice(["x", "a", "b", "c1", "eps_inf"] + (["A", "B"] * 2 if inside else []))
    k = rnd.random()
    if not inside and k < 0.12:
        return "sum", generate(rnd, n - 1, True, funcs)
    if k < 0.22:
        return rnd.choice(["neg", "pos"]), generate(rnd, n - 1, inside, funcs)
    if funcs and k < 0.32:
        a = generate(rnd, n - 1, inside, funcs)
        f = rnd.choice(FUNCS)
        return ("sin" if f == "heaviside" and not is_real(a) else f), a
    if k < 0.42:
        i = rnd.randrange(n)
        return "**", generate(rnd, min(i, 2), inside, funcs), rnd.choice([2, 3, ("neg", 1), ("neg", 2), ("pos", 2)])
    i = rnd.randrange(n)
    return rnd.choice("+-*/"), generate(rnd, i, inside, funcs), generate(rnd, n - 1 - i, inside, funcs)


def parameters(E):
    return {k: E.real(k, 0.5, 3.0) for k in ("a", "b", "c1", "eps_inf")}


def repeated(E, n):
    return [{k: E.real(f"{k}{i}", 0.5, 3.0) for k in ("A", "B")} for i in range(n)]


def lists(sets):
    return {k: [s[k] for s in sets] for k in ("A", "B")} if sets else {}


def axis(E):
    return E.rarray("lbda", (E.dim("N"),), 250.0, 2000.0, axis=True)


def make(E, cls, text, single, sets, unit=None, name="x"):
    return cls(("eps" if cls is Formula else "n") + " = " + text, name, dict(single), lists(sets), *([unit] if unit else []))


def get(f, lb):
    return f.refractive_index(lb) if isinstance(f, FormulaIndex) else f.dielectric_function(lb)


def same(E, label, got, want, lb):
    got, want = got + 0 * lb, want + 0 * lb
    if not E.sym:
        ok = np.isfinite(want)
        E.true(label + ": defined at the same points", bool(np.all(np.isfinite(got[ok]))))
        if not np.all(ok) or np.max(np.abs(want), initial=0) > 1e12:
            return
    E.eq(label, got, want, rtol=1e-9)


# ------------------------------------------------------------------------------------------------ the callbacks
@harness("C23", n=80, maxpaths=400)
def operations(E):
    """contract of every callback, for arbitrary operands"""
    lb = axis(E)
    d = E.dim("N")
    single = {"p": E.real("p", -3.0, 3.0)}
    t = FormulaTransformer("x", lb, single, {})
    a, b = E.carray("u", (d,), (-3.0, 3.0), (-3.0, 3.0)), E.carray("v", (d,), (0.2, 3.0), (-3.0, 3.0))
    kind = E.choose("operands", ["arrays", "array and number", "number and array"])
    if kind == "array and number":
        b = E.cplx("w", (0.2, 3.0), (-3.0, 3.0))
    elif kind == "number and array":
        a = E.cplx("w", (0.2, 3.0), (-3.0, 3.0))
    T = type(t)
    E.eq("add", T.add(a, b), a + b)
    E.eq("sub", T.sub(a, b), a - b)
    E.eq("mul", T.mul(a, b), a * b)
    E.eq("div", T.div(a, b), a / b)
    E.eq("neg", T.neg(a), -a)
    E.eq("power", T.power(b, 3.0), b * b * b)
    E.eq("power, negative", T.power(b, -1.0), 1 / b)
    r = E.rarray("r", (d,), 0.1, 3.0)
    s = E.rarray("s", (d,), -3.0, 3.0)
    for f in FUNCS:
        v = r if f in ("ln", "log") else s
        E.eq(f, t.func(f, v), apply(E, f, v), rtol=1e-9)
    for k, v in CONST.items():
        E.true("constant " + k, t.builtin(k) == v)
    E.eq("single parameter", t.single_param_name("p"), single["p"])
    E.eq("axis", t.single_param_name("x"), lb)
    E.eq("number", T.number("2.5"), 2.5)
    E.true("left side", t.eps(1.5) == ("eps", 1.5) and t.n(1.5) == ("n", 1.5))
    E.raises("unknown name", ValueError, lambda: t.single_param_name("q"))
    E.raises("unknown repeated name", ValueError, lambda: t.param_name("q"))
    E.raises("unknown function", ValueError, lambda: t.func("exp", 1.0))
    E.raises("unknown constant", ValueError, lambda: t.builtin("e"))


@harness("C23", n=60, bounded="at most five repeated sets")
def summation(E):
    """sum[...] of whatever its bracket evaluates to: a number, one value per set, per wavelength, or both"""
    lb = axis(E)
    d = E.dim("N")
    k = E.choose("sets", [1, 2, 3, 5])
    given = {q: E.m.array([E.real(f"{q}{i}", 0.5, 3.0) for i in range(k)]) for q in "AB"}
    t = FormulaTransformer("x", lb, {"p": E.real("p", -3.0, 3.0)}, given)
    x, A, B, p = t.param_name("x"), t.param_name("A"), t.param_name("B"), t.param_name("p")
    Av, Bv = [given["A"][i] for i in range(k)], [given["B"][i] for i in range(k)]
    what = {"number": (2.0, [2.0] * k), "single parameter": (p, [p] * k), "sets": (A / B, [u / v for u, v in zip(Av, Bv)]),
            "axis": (x, [lb] * k), "both": (A * x - B, [u * lb - v for u, v in zip(Av, Bv)]),
            "complex": (1j * A / (x + 1j * B), [1j * u / (lb + 1j * v) for u, v in zip(Av, Bv)])}
    w = E.choose("bracket", list(what))
    got, want = what[w]
    r = t.sum_expr(got)
    E.true("one value per wavelength", len(r) == len(lb) if not E.sym else True)
    E.eq("sum", r, sum(v + 0 * lb for v in want))


# ------------------------------------------------------------------------------------------------ precedence
BIN = ["+", "-", "*", "/", "**"]


def cases():
    """all formulas of two operators with every sign and bracket, as the expression they mean"""
    out = []
    for o in BIN:
        out.append((o, "a", "b"))
    for o1, o2 in itertools.product(BIN, BIN):
        out.append((o1, (o2, "a", "b"), "x"))
        out.append((o1, "x", (o2, "a", "b")))
    for o in BIN:
        for s in ("neg", "pos"):
            out += [(s, (o, "a", "x")), (o, (s, "a"), "x"), (o, "x", (s, "a")), (s, (s, (o, "x", "a"))), (o, "x", (s, ("neg", "a")))]
            out += [(o2, "b", (s, (o, "a", "x"))) for o2 in BIN] + [(o2, (o, (s, "a"), "x"), "b") for o2 in BIN]
            out += [(o2, (o, "a", "x"), (s, "b")) for o2 in BIN]
    for f in FUNCS:
        out += [(f, "a"), ("*", (f, "x"), "a"), ("**", (f, "a"), 2), ("neg", (f, "b")), ("**", "a", (f, "b")), (f, (f2 := "sin", "x"))]
    for o in "+-*/":
        out += [(o, "a", ("sum", "A")), (o, ("sum", "A"), "a"), (o, ("sum", (o, "A", "B")), ("sum", "B")), ("sum", (o, "A", "x")),
                ("sum", ("neg", (o, "A", "B"))), ("sum", (o, ("**", "A", 2), "B")), ("**", ("sum", (o, "A", "x")), 2)]
    return out


CASES = cases()


@harness("C23", n=40, bounded="all formulas of two binary operators with signs and brackets", maxpaths=100, weight=2)
def precedence(E):
    lb = axis(E)
    p, sets = parameters(E), repeated(E, 2)
    cls = Formula if E.choose("kind", ["eps", "n"]) == "eps" else FormulaIndex
    part = E.choose("part", list(range(4)))
    env = {**p, "x": lb}
    for e in CASES[part::4]:
        if not E.sym and "**" in ops(e) and ("neg" in ops(e) or "-" in ops(e) or "sin" in ops(e) or "ln" in ops(e)):
            # real powers of negative numbers are not defined
            with np.errstate(all="ignore"):
                f = make(E, cls, show(e), p, sets)
                got, want = get(f, lb), value(E, e, env, sets)
        else:
            got, want = get(make(E, cls, show(e), p, sets), lb), value(E, e, env, sets)
        same(E, "value", got, want, lb)


@harness("C23", n=24, bounded="brackets and blanks anywhere; at most four operators")
def brackets(E):
    """redundant brackets and blanks change nothing"""
    lb = axis(E)
    p, sets = parameters(E), repeated(E, 2)
    rnd = random.Random(E.choose("formula", list(range(8))))
    env = {**p, "x": lb}
    for _ in range(6):
        e = generate(rnd, 4, False, False)

        def full(e):
            if not isinstance(e, tuple):
                return f"({e})" if rnd.random() < .5 and not isinstance(e, str) else str(e)
            if e[0] == "sum":
                return f"(sum[ {full(e[1])} ])"
            if e[0] in ("neg", "pos"):
                return "(" + ("-" if e[0] == "neg" else "+") + full(e[1]) + ")"
            return "((" + full(e[1]) + ")" + e[0] + "(" + full(e[2]) + "))"
        same(E, "value", get(make(E, Formula, full(e), p, sets), lb), value(E, e, env, sets), lb)
        same(E, "blanks", get(make(E, Formula, show(e, rnd), p, sets), lb), value(E, e, env, sets), lb)


@harness("C23", n=60, bounded=SIZE, maxpaths=200, weight=2)
def generated(E):
    lb = axis(E)
    p = parameters(E)
    sets = repeated(E, E.choose("sets", [1, 2, 4]))
    cls = Formula if E.choose("kind", ["eps", "n"]) == "eps" else FormulaIndex
    seed = E.choose("seed", list(range(10))) if E.sym else E.choose("seed", list(range(10))) + 10 * E.choose("more", list(range(1000)))
    rnd = random.Random(seed)
    env = {**p, "x": lb}
    for _ in range(5):
        e = generate(rnd, rnd.choice([3, 4, 5] if E.sym else [3, 5, 8, 12]), False, True)
        with np.errstate(all="ignore"):
            try:
                want = value(E, e, env, sets) + 0 * lb
            except ZeroDivisionError:
                continue
            got = get(make(E, cls, show(e, rnd), p, sets), lb)
        if E.sym:
            E.eq("value", got + 0 * lb, want)
        else:
            ok = np.isfinite(want)
            if np.all(ok) and np.max(np.abs(want)) < 1e9:
                E.eq("value", got + 0 * lb, want, rtol=1e-6, scale=max(1.0, float(np.max(np.abs(want)))))


# ------------------------------------------------------------------------------------------------ names, units, refusals
NAMES = ["e", "j", "x1", "c1", "pi2", "h_", "hbar2", "sinus", "cosx", "log2", "lnx", "tanh", "sqrt_1", "eps_0s", "Eps", "e1j",
         "_a", "sums", "heavi", "eps", "n", "A", "lambda_r"]


@harness("C23", n=60, bounded="the listed names", maxpaths=200)
def binding(E):
    """values are bound by name, whatever the name starts with, single, repeated or axis"""
    lb = axis(E)
    k = E.choose("name", NAMES)
    v, w = E.real("v", 0.5, 3.0), E.real("w", 0.5, 3.0)
    f = Formula(f"eps = 2*{k} + x/w", "x", {"w": w, k: v}, {})
    E.eq("single", get(f, lb), 2 * v + lb / w)
    f = Formula(f"eps = w*sum[{k}*x]", "x", {"w": w}, {k: [v, w]})
    E.eq("repeated", get(f, lb), w * (v + w) * lb)
    f = FormulaIndex(f"n = w*{k} + sum[{k}*q]", k, {"w": w}, {"q": [v, w]})
    E.eq("axis", get(f, lb), w * lb + (v + w) * lb)
    s = Formula("eps = w + 2*v", "x", {"v": v, "w": w}, {})
    t = Formula("eps = w + 2*v", "x", {"w": v, "v": w}, {})
    E.eq("same formula, other values", get(s, lb) - 0 * lb, w + 2 * v + 0 * lb)
    E.eq("same formula, other values", get(t, lb) - 0 * lb, v + 2 * w + 0 * lb)
    t.single_params["v"] = 1.5
    E.eq("changed value", get(t, lb) - 0 * lb, v + 3.0 + 0 * lb)
    E.eq("not the other formula's", get(s, lb) - 0 * lb, w + 2 * v + 0 * lb)


UNITS = {"nm": lambda x: x, "um": lambda x: x / 1000, "micrometer": lambda x: x / 1000, "m": lambda x: x * 1e-9, "cm": lambda x: x * 1e-7,
         "angstrom": lambda x: x * 10, "Angstroms": lambda x: x * 10, "pm": lambda x: x * 1000, "mm": lambda x: x * 1e-6,
         "eV": lambda x: sc.h * sc.c / sc.e / (x * 1e-9), "meV": lambda x: sc.h * sc.c / sc.e * 1000 / (x * 1e-9),
         "keV": lambda x: sc.h * sc.c / sc.e / 1000 / (x * 1e-9), "J": lambda x: sc.h * sc.c / (x * 1e-9)}


@harness("C23", n=60, bounded="the listed units", maxpaths=200)
def units(E):
    lb = axis(E)
    u = E.choose("unit", list(UNITS))
    a, b = E.real("a", 0.5, 3.0), E.real("b", 0.5, 3.0)
    x = UNITS[u](lb)
    # (the constants of pint's registry and scipy agree to 9 digits)
    same_ = (lambda label, g, w: E.true(label, E.m.all(E.m.abs(g - w) <= 1e-8 * E.m.abs(w)))) if E.sym else \
        (lambda label, g, w: E.eq(label, g, w, rtol=1e-8))
    s = 1.0 if u != "J" else 1e19
    s = {"J": 1e19, "m": 1e6, "cm": 1e4, "mm": 1e3}.get(u, 1.0)
    same_("axis", get(Formula(f"eps = {s!r} * x", "x", {}, {}, u), lb), s * x)
    if not E.sym:
        y = s * x
        same_("single", get(Formula(f"eps = a + b/({s!r}*x)", "x", {"a": a, "b": b}, {}, u), lb), a + b / y)
        same_("index", get(FormulaIndex(f"n = a + sum[A*x*{s!r}]", "x", {"a": a}, {"A": [a, b]}, u), lb), a + (a + b) * y)
    else:
        same_("in a sum", get(FormulaIndex(f"n = sum[A*x*{s!r}]", "x", {}, {"A": [a]}, u), lb), a * s * x)
    E.eq("no unit: as given", get(Formula("eps = x", "x", {}, {}), lb), lb)


BAD = ["eps = q", "eps = a + q*x", "eps = sum[q*x]", "eps = A", "eps = A + sum[A]", "eps = exp(x)", "eps = arcsin(x)", "eps = foo(x)",
       "eps = sin x", "eps = sum[sum[A]]", "eps = sum(A)", "eps = sum[A", "eps = (a", "eps = a)", "eps = a +", "eps = * a", "eps = a ** b ** x",
       "eps = 2a", "eps = a b", "eps = a ^ b", "eps = a // b", "eps = a % b", "eps = ", "a + b", "eps a", "= a", "eps = a = b", "EPS = a", "mu = a",
       "eps_inf = a", "k = a", "eps = <kkr> + 1j * a", "eps = a; b", "eps = a, b", "eps = a[0]", "eps = 'a'", "eps = 1k", "eps = a.real",
       "eps = __import__(x)", "eps = sin()", "eps = ()", "eps = sum[]", "", "eps = sin + a", "eps = 5 x"]


@harness("C23", n=2 * len(BAD), maxpaths=700)
def refusals(E):
    """whatever is not a formula of known names is refused, at the latest when it is evaluated"""
    lb = np.array([400.0, 500.0])
    a = 1.5
    text = E.choose("formula", BAD)
    E.raises("not a formula", ERR, lambda: get(Formula(text, "x", {"a": a, "b": 2.0}, {"A": [1.0, 2.0]}), lb))
    if not text.startswith(("a", "=")) and text:
        E.raises("not a formula of an index", ERR, lambda: get(FormulaIndex(text.replace("eps", "n", 1), "x", {"a": a, "b": 2.0},
                                                                          {"A": [1.0, 2.0]}), lb))
    E.raises("wrong left side", ERR, lambda: Formula("n = a + x", "x", {"a": a}, {}))
    E.raises("wrong left side of an index", ERR, lambda: FormulaIndex("eps = a + x", "x", {"a": a}, {}))
    u = E.choose("unit", ["s", "K", "Hz", "kg", "m**2", "1/m", "A", "foo", "rad"])
    E.raises("no unit of length or energy", (ValueError, Exception), lambda: Formula("eps = x", "x", {}, {}, u))
    E.raises("axis is no parameter of the other name", ERR, lambda: get(Formula("eps = x", "y", {"a": a}, {}), lb))
    E.eq("a good one", get(Formula("eps = a + sum[A]*x", "x", {"a": a}, {"A": [1.0, 2.0]}), lb), 1.5 + 3 * lb)
