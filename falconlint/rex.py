"""Named subexpressions in the real domain: a value stored by the program that is
not a single monomial gets a name, so that expressions stay small; comparing
two values expands the names where they differ."""
import random

import real as RL
from real import R

KIND = "named"


def name(v):
    """v, or an atom standing for it"""
    if type(v) is R and (len(v.num) > 1 or v.den):
        return RL.fn(KIND, v)
    return v


def value(a):
    return a.args[0]


_EXP = {}


def reset():
    _EXP.clear()


def has_named(r):
    return type(r) is R and any(RL.ATOMS[x].kind == KIND for x in RL.atoms_of(r))


def expand(r):
    """r without names"""
    if not has_named(r):
        return r
    tot = exp_poly(r.num)
    for d, e in r.den:
        q = exp_poly(RL.DENS[d])
        for _ in range(e):
            tot = RL.div(tot, q)
    return tot


def exp_atom(x):
    v = _EXP.get(x)
    if v is None:
        a = RL.ATOMS[x]
        v = _EXP[x] = expand(value(a)) if a.kind == KIND else RL.of_atom(a)
    return v


def exp_poly(num):
    tot = 0.0
    for m, c in num.items():
        t = c
        for x, e in m:
            b = exp_atom(x)
            for _ in range(abs(e)):
                t = RL.mul(t, b) if e > 0 else RL.div(t, b)
        tot = RL.add(tot, t)
    return tot


def equal(a, b, tol=RL.TOL):
    if type(a) not in (R, float) or type(b) not in (R, float):
        return False
    if RL.equal(a, b, tol):
        return True
    return RL.equal(expand(a), expand(b), tol)


class NoVal(Exception):
    pass


def evalr(r, env, rnd):
    """numeric value of r; atoms without a meaning get the values of env (made up on demand)"""
    if type(r) is float:
        return r
    if type(r) is not R:
        raise NoVal()

    def atom(x):
        v = env.get(x)
        if v is None:
            a = RL.ATOMS[x]
            if a.kind == KIND:
                v = evalr(value(a), env, rnd)
            elif a.kind in ("in", "int"):
                v = rnd.uniform(0.5, 2.0) * rnd.choice((-1, 1))
            elif a.kind == "round":
                t = evalr(a.args[0], env, rnd)
                v = t + 0.25 * (hash((a.id, 7)) % 3 - 1)
            elif a.kind == "sqrt":
                t = evalr(a.args[0], env, rnd)
                if t < 0:
                    raise NoVal()
                v = t ** 0.5
            elif a.kind == "fabs":
                v = abs(evalr(a.args[0], env, rnd))
            else:
                raise NoVal()
            env[x] = v
        return v

    def poly(q):
        s = 0.0
        for m, c in q.items():
            for x, e in m:
                c *= atom(x) ** e
            s += c
        return s
    d = 1.0
    for k, e in r.den:
        d *= poly(RL.DENS[k]) ** e
    return poly(r.num) / d


def differ(a, b, trials=6):
    """values that tell a and b apart, or None"""
    if type(a) not in (R, float) or type(b) not in (R, float):
        return None
    rnd = random.Random(11)
    for _ in range(trials):
        try:
            env = {}
            u, v = evalr(a, env, rnd), evalr(b, env, rnd)
        except (NoVal, ZeroDivisionError, OverflowError, RecursionError):
            continue
        if abs(u - v) > 1e-6 * (abs(u) + abs(v)) + 1e-12:
            return u, v
    return None
