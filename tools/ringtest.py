"""Differential test of the normaliser the proofs rest on: random terms, evaluated directly and through
their normal form, must have the same value; terms found equal must have equal values.
usage: PYTHONPATH=/repo/src:/verif /opt/venv/bin/python tools/ringtest.py [N] [SEED]"""
import random
import sys

from vf import ring as R
from vf import terms as T


def gen(rnd, depth, rv, cv):
    """a random term; real ones know that they are"""
    k = rnd.random()
    if depth == 0 or k < 0.12:
        c = rnd.random()
        if c < 0.4:
            return rnd.choice(rv)
        if c < 0.8:
            return rnd.choice(cv)
        if c < 0.9:
            return T.const(rnd.choice([1, 2, -1, 3]), 0)
        return T.const(0, rnd.choice([1, -1, 2]))
    g = lambda: gen(rnd, depth - 1, rv, cv)
    if k < 0.34:
        return T.add(g(), g())
    if k < 0.40:
        return T.sub(g(), g())
    if k < 0.62:
        return T.mul(g(), g())
    if k < 0.70:
        return T.div(g(), g())
    if k < 0.75:
        return T.powi(g(), rnd.choice([2, 3, -1]))
    if k < 0.80:
        return T.conj(g())
    if k < 0.85:
        return T.re(g())
    if k < 0.90:
        return T.im(g())
    x = g()
    f = rnd.choice(["sin", "cos", "exp", "sqrt", "abs", "tan"])
    if f in ("sin", "cos", "tan", "exp") and rnd.random() < .7:
        x = rnd.choice(rv)
        if f == "exp":
            x = T.mul(T.const(0, 1), x)
    return T.fn(f, x, real=False if f == "sqrt" else None)


RV = [T.rvar(f"x{i}") for i in range(3)]
CV = [T.cvar(f"z{i}") for i in range(3)]
I = T.const(0, 1)


def main(n, seed):
    rnd = random.Random(seed)
    done = bad = missed = 0
    for it in range(n):
        try:
            a = gen(rnd, rnd.choice([2, 3, 4, 5]), RV, CV)
            s = gen(rnd, 2, RV, CV)
            claims = [(True, T.sub(T.add(a, s), s), a), (True, T.add(T.re(a), T.mul(I, T.im(a))), a),
                      (True, T.mul(T.const(2), T.re(a)), T.add(a, T.conj(a))),
                      (True, T.re(T.mul(a, s)), T.sub(T.mul(T.re(a), T.re(s)), T.mul(T.im(a), T.im(s)))),
                      (True, T.im(T.mul(I, a)), T.re(a)),
                      (False, T.mul(a, T.conj(s)), T.mul(T.conj(a), s)), (False, T.conj(a), a), (False, T.re(a), a),
                      (False, T.im(a), T.const(0)), (False, T.re(T.mul(a, s)), T.mul(T.re(a), T.re(s))), (False, a, s)]
        except (ZeroDivisionError, OverflowError):
            continue
        for valid, x, y in claims:
            try:
                z = R.Session().is_zero(T.sub(x, y))
            except (R.TooBig, R.Unsupported, ZeroDivisionError, RecursionError):
                continue
            if not z:
                missed += valid
                continue
            for _ in range(2):
                val = {v: rnd.uniform(.2, 2) for v in RV}
                val.update({v: complex(rnd.uniform(-2, 2), rnd.uniform(-2, 2)) for v in CV})
                try:
                    u, v = [complex(q) for q in T.evaluate([x, y], val)]
                except (T.EvalError, ZeroDivisionError, OverflowError, ValueError):
                    continue
                if not abs(u) < 1e12:
                    continue
                done += 1
                if abs(u - v) > 1e-9 * (1 + abs(u) + abs(v)):
                    bad += 1
                    print("WRONG", T.show(x), "=", T.show(y), u, v)
                    break
    print(f"{n} terms, {done} evaluations of accepted equalities, {bad} wrong; {missed} valid equalities not accepted")
    return 1 if bad else 0


if __name__ == "__main__":
    a = sys.argv
    sys.exit(main(int(a[1]) if len(a) > 1 else 300, int(a[2]) if len(a) > 2 else 1))
