"""C19 binding of dispersion parameters

Contract of BaseDispersion._fill_params_dict(template, *args, **kwargs): the i-th value goes to the i-th name of the
template, the keywords to their names, the rest are the template's values; InvalidParameters for an unknown name, a name
set twice, too many values. The set of models is finite and each has finitely many splits of its parameters into
positional and keyword arguments: all of them are gone through, with arbitrary values. The frame condition (no other
object, no template, no argument is touched) is checked by comparing everything reachable from every other object, the
templates and the arguments before and after each operation.
"""
import copy
import itertools

import numpy as np

import elli
from elli import dispersions as D
from elli.dispersions.base_dispersion import BaseDispersion, Dispersion, IndexDispersion, InvalidParameters, DispersionFactory
from ..engine import harness
from .c06 import heap

# names and defaults in the documented order: single parameters, repeated parameters
MODELS = {
    "Cauchy": (dict(n0=1.5, n1=0, n2=0, k0=0, k1=0, k2=0), {}),
    "CauchyCustomExponent": (dict(n0=1.5), dict(f=0, e=1)),
    "CauchyUrbach": (dict(n0=1.5, B=0, C=0, D=0, Eg=2, Eu=0.5), {}),
    "ConstantRefractiveIndex": (dict(n=1), {}),
    "DrudeEnergy": (dict(A=0, gamma=0), {}),
    "DrudeResistivity": (dict(rho_opt=1, tau=1), {}),
    "EpsilonInf": (dict(eps=1), {}),
    "Gaussian": ({}, dict(A=1, E=1, sigma=1)),
    "LorentzEnergy": ({}, dict(A=1, E=0, gamma=0)),
    "LorentzLambda": ({}, dict(A=1, lambda_r=0, gamma=0)),
    "Poles": (dict(A_ir=1, A_uv=1, E_uv=6), {}),
    "Polynomial": (dict(e0=1), dict(f=0, e=0)),
    "Sellmeier": ({}, dict(A=0, B=0)),
    "SellmeierCustomExponent": ({}, dict(A=0, e_A=1, B=0, e_B=1)),
    "Tanguy": (dict(A=1, d=3, gamma=0.1, R=0.1, Eg=1, a=0, b=0), {}),
    "TaucLorentz": (dict(Eg=1), dict(A=20, E=1.5, C=1)),
    "CodyLorentz": (dict(Eg=1.6, A=100, Et=1.8, gamma=2.4, Ep=0.8, E0=3.6, Eu=0.05), {}),
}
TABLES = {"Table": ("lbda", "n"), "TableEpsilon": ("lbda", "epsilon"), "PseudoDielectricFunction": ("angle", "lbda", "psi", "delta")}


def splits(names, most=40):
    """(number of positional values, names given by keyword): all of them"""
    for k in range(len(names) + 1):
        rest = names[k:]
        for r in range(len(rest) + 1):
            for kw in itertools.combinations(rest, r):
                yield k, kw


def agree(E, got, want):
    return list(got) == list(want) and all(got[k] is want[k] or bool(got[k] == want[k]) for k in want)


def templates(cls):
    return heap(cls.single_params_template), heap(cls.rep_params_template)


def refused(f):
    try:
        f()
    except InvalidParameters:
        return True
    return False


def check_binding(E, label, template, make, got, vals):
    """make(*args, **kwargs) and got(object) give the bound parameters for every split"""
    names = list(template)
    ok = True
    wrong = []
    for k, kw in splits(names):
        args = [vals[n] for n in names[:k]]
        for order in (kw, kw[::-1]):
            kwargs = {n: vals[n] for n in order}
            keep = list(args), dict(kwargs)
            p = got(make(*args, **kwargs))
            want = {n: vals[n] if n in names[:k] or n in kw else template[n] for n in names}
            if not agree(E, p, want):
                ok = False
                wrong.append((k, order))
            ok &= list(map(id, keep[0])) == list(map(id, args)) and list(keep[1]) == list(kwargs)
    E.true(f"{label}: every split binds as declared {wrong[:1]}", ok)
    bad = []
    # every name given twice, every unknown name, too many values: at every number of positional values
    for k in range(len(names) + 1):
        args = [vals[n] for n in names[:k]]
        rest = {n: vals[n] for n in names[k:]}
        for n in names[:k]:
            if not refused(lambda: make(*args, **{n: vals[n]})):
                bad.append(("twice", k, n))
        for u in UNKNOWN:
            if u not in names:
                if not refused(lambda: make(*args, **{u: 1.0})) or not refused(lambda: make(*args, **rest, **{u: 1.0})) or \
                        not refused(lambda: make(*args, **{u: 1.0}, **rest)):
                    bad.append(("unknown", k, u))
    for extra in (1, 2, 5):
        if not refused(lambda: make(*[vals[n] for n in names], *([1.0] * extra))):
            bad.append(("too many", extra))
    E.true(f"{label}: wrong arguments are refused {bad[:1]}", not bad)


UNKNOWN = ("x", "A", "E", "n", "n3", "Gamma", "eps", "e1", "single_params", "template", "lbda")


@harness("C19", n=60, maxpaths=400)
def constructor(E):
    """all models, all splits of the single parameters, arbitrary values"""
    name = E.choose("model", list(MODELS))
    cls = getattr(D, name)
    t = MODELS[name][0]
    before = templates(cls)
    E.true("documented parameters and defaults", list(cls.single_params_template.items()) == list(t.items()))
    vals = {n: E.real(n, -5.0, 5.0) for n in t}
    check_binding(E, "constructor", t, cls, lambda d: d.single_params, vals)
    check_binding(E, "factory", t, lambda *a, **k: DispersionFactory.get_dispersion(name, *a, **k),
                  lambda d: d.single_params if type(d) is cls else {}, vals)
    E.true("no repeated sets yet", cls().rep_params == [])
    E.true("defaults unchanged", templates(cls) == before)


@harness("C19", n=60, maxpaths=400)
def adding(E):
    """all models with repeated parameters, all splits"""
    name = E.choose("model", [m for m in MODELS if MODELS[m][1]])
    cls = getattr(D, name)
    t = MODELS[name][1]
    before = templates(cls)
    E.true("documented parameters and defaults", list(cls.rep_params_template.items()) == list(t.items()))
    vals = {n: E.real(n, -5.0, 5.0) for n in t}

    def make(*a, **k):
        d = cls()
        r = d.add(*a, **k)
        assert r is d and len(d.rep_params) == 1
        return d
    check_binding(E, "add", t, make, lambda d: d.rep_params[0], vals)
    d = cls()
    if not refused(lambda: d.add(unknown=1)) or d.rep_params:
        E.true("a refused set is not added", False)
    E.true("defaults unchanged", templates(cls) == before)


@harness("C19", n=20, maxpaths=100)
def no_repeated(E):
    """models without repeated parameters refuse to be extended"""
    name = E.choose("model", [m for m in MODELS if not MODELS[m][1]])
    d = getattr(D, name)()
    h = heap(d.single_params)
    E.raises("values", InvalidParameters, lambda: d.add(1.0))
    E.raises("names", InvalidParameters, lambda: d.add(A=1.0))
    E.true("unchanged", heap(d.single_params) == h)


@harness("C19", n=40, bounded="templates of at most five parameters", maxpaths=400)
def any_template(E):
    """any class with any template"""
    n = E.choose("parameters", [0, 1, 2, 3, 4, 5])
    names = ["p", "A", "Eg", "a b", "gamma"][:n]
    if E.choose("order", ["given", "reversed"]) == "reversed":
        names = names[::-1]
    t = {x: E.real(f"default {x}", -5.0, 5.0) for x in names}
    base = IndexDispersion if E.choose("base", ["index", "epsilon"]) == "index" else Dispersion
    body = {"single_params_template": dict(t), "rep_params_template": dict(t), "dielectric_function": lambda s, l: l,
            "refractive_index": lambda s, l: l}
    cls = type("Model", (base,), body)
    vals = {x: E.real(x, -5.0, 5.0) for x in names}
    check_binding(E, "constructor", t, cls, lambda d: d.single_params, vals)
    check_binding(E, "add", t, lambda *a, **k: cls().add(*a, **k), lambda d: d.rep_params[0], vals)
    E.true("templates unchanged", agree(E, cls.single_params_template, t) and agree(E, cls.rep_params_template, t))


@harness("C19", n=40, bounded="templates of at most four parameters", maxpaths=400)
def required(E):
    """parameters without a default must be given - by any split that contains them"""
    n = E.choose("parameters", [1, 2, 3, 4])
    names = ["p", "q", "r", "s"][:n]
    need = [E.choose(f"{x} required", [True, False]) for x in names]
    t = {x: None if q else 2.5 for x, q in zip(names, need)}
    cls = type("Model", (Dispersion,), {"single_params_template": dict(t), "rep_params_template": {},
                                        "dielectric_function": lambda s, l: l})
    vals = {x: E.real(x, -5.0, 5.0) for x in names}
    bad = []
    for k, kw in splits(names):
        given = set(names[:k]) | set(kw)
        call = lambda: cls(*[vals[x] for x in names[:k]], **{x: vals[x] for x in kw})
        if all(x in given for x, q in zip(names, need) if q):
            if not agree(E, call().single_params, {x: vals[x] if x in given else t[x] for x in names}):
                bad.append((k, kw))
        elif not refused(call):
            bad.append((k, kw))
    E.true(f"required parameters {bad[:1]}", not bad)


@harness("C19", n=40, maxpaths=200)
def tables(E):
    """the tables: positional or by name, missing or unknown ones refused"""
    name = E.choose("model", list(TABLES))
    cls = getattr(D, name)
    names = TABLES[name]
    E.true("documented parameters", list(cls.single_params_template.items()) == [(n, None) for n in names])
    lb = [300.0, 500.0, 700.0, 900.0]
    vals = {"lbda": lb, "angle": 60.0, "psi": np.array([20.0, 25.0, 30.0, 28.0]), "delta": np.array([100.0, 90.0, 80.0, 85.0])}
    y = [E.real(f"y{i}", 1.0, 5.0) for i in range(4)] if name != "PseudoDielectricFunction" else [1.0] * 4
    vals["n"] = vals["epsilon"] = list(y)
    keep = copy.deepcopy({k: vals[k] for k in names})
    bad = []
    for k, kw in splits(names):
        call = lambda: cls(*[vals[n] for n in names[:k]], **{n: vals[n] for n in kw})
        if k + len(kw) == len(names):
            p = call().single_params
            if list(p) != list(names) or any(p[n] is not vals[n] and heap(p[n]) != heap(vals[n]) for n in names):
                bad.append((k, kw))
        elif not refused(call):
            bad.append((k, kw))
    E.true(f"every split {bad[:1]}", not bad)
    full = [vals[n] for n in names]
    E.raises("unknown name", InvalidParameters, lambda: cls(*full, unknown=1.0))
    E.raises("given twice", InvalidParameters, lambda: cls(*full, **{names[-1]: full[-1]}))
    E.raises("given twice, too few", InvalidParameters, lambda: cls(full[0], **{names[0]: full[0]}))
    E.raises("too many", InvalidParameters, lambda: cls(*full, 1.0))
    E.true("the arguments are unchanged", heap({k: vals[k] for k in names}) == heap(keep))
    E.true("defaults unchanged", all(v is None for v in cls.single_params_template.values()))


# ------------------------------------------------------------------------------------------------ nothing is shared
OPS = ["new", "new other", "add 0", "add 1", "add 2", "bad add", "set", "copy", "evaluate"]


@harness("C19", n=150, bounded="histories of at most four operations per model (longer ones sampled)", maxpaths=20000, weight=2)
def histories(E):
    """creating, extending or changing one object touches no other one, no default and no argument"""
    kinds = ["LorentzEnergy", "TaucLorentz", "Polynomial"] if E.sym else list(MODELS)
    name = E.choose("model", kinds)
    cls = getattr(D, name)
    other = D.Gaussian if name != "Gaussian" else D.LorentzEnergy
    s, r = MODELS[name]
    steps = 3 if E.sym else E.choose("steps", [1, 3, 6, 10])
    objs, model = [], []      # the objects and what they have to contain
    args = {n: E.real(n, 0.1, 5.0) for n in s}
    lists = []
    objs.append(cls(**args))
    model.append(({**s, **args}, []))
    defaults = [(c, templates(c)) for c in (cls, other)]
    ops = [o for o in OPS if r or not o.startswith("add")]
    if E.sym:
        ops = [o for o in ops if o not in ("add 2", "evaluate", "bad add")]
    for k in range(steps):
        op = E.choose(f"step {k}", ops)
        if op == "new":
            objs.append(cls())
            model.append((dict(s), []))
        elif op == "new other":
            objs.append(other())
            objs[-1].add()
            model.append((dict(other.single_params_template), [dict(other.rep_params_template)]))
        elif op.startswith("add"):
            i = int(op[-1]) % len(objs)
            t = r if type(objs[i]) is cls else other.rep_params_template
            v = {n: E.real(f"{n}{k}", 0.1, 5.0) for n in list(t)[:2]}
            keep = dict(v)
            objs[i].add(**v)
            model[i][1].append({**t, **v})
            E.true("the arguments are unchanged", v == keep)
        elif op == "bad add":
            for f in (lambda: objs[0].add(1, 2, 3, 4, 5, 6), lambda: objs[-1].add(nothing=1)):
                if not refused(f):
                    E.true("refused", False)
        elif op == "set":
            i = len(objs) - 1
            if model[i][1]:
                key = list(model[i][1][-1])[0]
                v = E.real(f"set{k}", 0.1, 5.0)
                objs[i].rep_params[-1][key] = v
                model[i][1][-1][key] = v
            if model[i][0]:
                key = list(model[i][0])[0]
                v = E.real(f"set1{k}", 0.1, 5.0)
                objs[i].single_params[key] = v
                model[i][0][key] = v
        elif op == "copy":
            objs.append(copy.deepcopy(objs[0]))
            model.append(copy.deepcopy(model[0]))
        else:
            objs[0].get_mat(), repr(objs[0])
        good = all(agree(E, o.single_params, m[0]) and len(o.rep_params) == len(m[1]) and
                   all(agree(E, a, b) for a, b in zip(o.rep_params, m[1])) for o, m in zip(objs, model))
        E.true(f"after step {k}: every object has its own parameters, in the order added", good)
        E.true(f"after step {k}: defaults", all(templates(c) == h for c, h in defaults))


@harness("C19", n=40, maxpaths=100)
def index_view(E):
    """as_index is a view of the same parameters; a copy of it has its own"""
    lb = E.rarray("lbda", (E.dim("N"),), 250.0, 2000.0, axis=True)
    d = elli.LorentzEnergy().add(E.real("A", 1.0, 20.0), 4.0, E.real("g", 0.1, 1.0))
    v = d.as_index()
    c = copy.deepcopy(v)
    e = copy.deepcopy(d)
    before = d.dielectric_function(lb)
    c.add(E.real("B", 1.0, 20.0), 5.0, 0.5)
    E.eq("extending the copy of the view", v.dielectric_function(lb), before)
    E.eq("extends only the copy", d.dielectric_function(lb), before)
    late = d.copy() if hasattr(d, "copy") else e
    w = copy.deepcopy(v)
    d.add(E.real("C", 1.0, 20.0), 3.0, 0.5)
    E.eq("extending the original leaves copies alone", w.dielectric_function(lb), before)
    E.eq("also copies of itself", e.dielectric_function(lb), before)
    E.eq("a view shows the original", v.dielectric_function(lb), d.dielectric_function(lb))


# ------------------------------------------------------------------------------------------------ formula dispersions
@harness("C19", n=60, bounded="at most three parameters of each kind and four repeated sets", maxpaths=400)
def formula(E):
    lb = np.array([500.0, 600.0]) if not E.sym else E.rarray("lbda", (E.dim("N"),), 250.0, 2000.0, axis=True)
    sets = E.choose("sets", [0, 1, 2, 4])
    index = E.choose("kind", ["eps", "n"]) == "n"
    how = E.choose("container", ["list", "array"]) if not E.sym else "list"
    s = {x: E.real(x, 0.5, 3.0) for x in ("a", "b")}
    r = {x: [E.real(f"{x}{i}", 0.5, 3.0) for i in range(sets)] for x in ("A", "B", "C")}
    given = {k: np.array(v) if how == "array" else list(v) for k, v in r.items()}
    keep, hs = copy.deepcopy(given), dict(s)
    f = (elli.FormulaIndex if index else elli.Formula)(("n" if index else "eps") + " = a + 2*b" + (" + sum[A*x/B + C]" if sets else " + 0*x"), "x", s, given)
    f.get_refractive_index(lb)
    E.true("arguments unchanged", heap(given) == heap(keep) and heap(s) == heap(hs))
    E.true("single parameters", agree(E, f.single_params, hs))
    want = [{k: r[k][i] for k in r} for i in range(sets)]
    E.true("sets in order", len(f.rep_params) == sets and all(agree(E, a, b) for a, b in zip(f.rep_params, want)))
    if sets:
        extra = {k: E.real(f"extra {k}", 0.5, 3.0) for k in r}
        g = copy.deepcopy(f)
        f.add(extra["A"], C=extra["C"], B=extra["B"])
        E.true("added at the end", agree(E, f.rep_params[-1], extra) and len(f.rep_params) == sets + 1)
        E.true("not in the copy", len(g.rep_params) == sets)
        val = lambda q: q.refractive_index(lb) if index else q.dielectric_function(lb)
        E.eq("value", val(f) - val(g), extra["A"] * lb / extra["B"] + extra["C"])
    E.raises("unknown repeated name", InvalidParameters, lambda: f.add(unknown=1.0))
    E.raises("too many values", InvalidParameters, lambda: f.add(1.0, 2.0, 3.0, 4.0))
    cls = type(f)
    head = "n" if index else "eps"
    E.raises("sets of unequal number", ValueError, lambda: cls(head + " = sum[A*B*x]", "x", {}, {"A": [1.0, 2.0], "B": [1.0]}))
    E.raises("sets of unequal number, longer second", ValueError, lambda: cls(head + " = sum[A*B*x]", "x", {}, {"A": [1.0], "B": [1.0, 2.0]}))
    E.raises("a number is not a list of values", ValueError, lambda: cls(head + " = sum[A*x]", "x", {}, {"A": 1.0}))
    E.raises("a required single parameter", InvalidParameters, lambda: cls(head + " = a", "x", {"a": None}, {}))
