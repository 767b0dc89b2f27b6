"""Big integers (support/model_gmp): ring operations arrive as operations on doubles and are
read as exact; this gives the rest its meaning.  Paths are chosen by representatives: every
opaque number has a concrete value that only decides undetermined comparisons."""
from fractions import Fraction

import dom as D
import real as RL
import rex
from chk import ev
from dom import T
from interp import Ptr, Stop, UNDEF
from real import R


class NoRep(Exception):
    pass


class Reps:
    def __init__(self, rep):
        self.rep = rep            # atom -> concrete value or None
        self.memo = {}
        self.bits = {}

    def atom(self, x):
        v = self.memo.get(x)
        if v is None:
            a = RL.ATOMS[x]
            v = self.rep(a)
            if v is None:
                g = [self.val(y) if isinstance(y, (float, R)) else y for y in a.args]
                if a.kind == rex.KIND:
                    v = g[0]
                elif a.kind == "fdiv2":
                    v = Fraction(g[0] // (1 << int(g[1])))
                elif a.kind == "tdiv2":
                    v = Fraction(abs(g[0]) // (1 << int(g[1]))) * (1 if g[0] >= 0 else -1)
                elif a.kind == "tdiv" and g[1]:
                    v = Fraction(abs(g[0]) // abs(g[1])) * (1 if (g[0] >= 0) == (g[1] >= 0) else -1)
                elif a.kind == "fdiv" and g[1]:
                    v = Fraction(g[0] // g[1])
                elif a.kind == "fabs":
                    v = abs(g[0])
                elif a.kind == "floor":
                    v = Fraction(g[0] // 1)
                elif a.kind in ("trunc", "round"):
                    t = abs(g[0]) + (Fraction(1, 2) if a.kind == "round" else 0)
                    v = Fraction(t // 1) * (1 if g[0] >= 0 else -1)
                elif a.kind == "int":
                    v = Fraction(self.int(g[0], bool(g[1])))
                else:
                    raise NoRep(a)
            v = self.memo[x] = Fraction(v)
        return v

    def poly(self, p):
        s = Fraction(0)
        for m, c in p.items():
            t = Fraction(c)
            for x, e in m:
                t *= self.atom(x) ** e
            s += t
        return s

    def val(self, r):
        if isinstance(r, float):
            return Fraction(r)
        if type(r) is not R:
            raise NoRep(r)
        v = self.poly(r.num)
        for d, e in r.den:
            q = self.poly(RL.DENS[d])
            if not q:
                raise NoRep(r)
            v /= q ** e
        return v

    def int(self, t, signed=False):
        """concrete value of an integer term"""
        if type(t) is int:
            return t
        memo = {}
        todo, seen = [t], set()
        while todo:
            z = todo.pop()
            if not isinstance(z, T):
                if isinstance(z, (tuple, frozenset)):
                    todo += list(z)
                continue
            if z in seen:
                continue
            seen.add(z)
            if z.op == "fromreal":
                v = self.val(z.args[0].r)
                memo[z] = int(v) & ((1 << z.w) - 1)
            elif z.op in ("flt", "feq"):
                v = self.val(z.args[0].r)
                memo[z] = int(v < 0 if z.op == "flt" else v == 0)
            elif z.op == "atom":
                v = self.rep(z)
                if v is None:
                    raise NoRep(z)
                memo[z] = int(v) & ((1 << z.w) - 1)
            elif z.op == "bits":
                for b in z.args:
                    if b > 1 and not isinstance(D.LITN[(b >> 1) - 1][0], T):
                        raise NoRep(z)
                    if b > 1:
                        todo.append(D.LITN[(b >> 1) - 1][0])
            else:
                todo += list(z.args)
        r = ev(t, 5, memo)
        return r - (1 << t.w) if signed and r >> (t.w - 1) else r

    def cmp(self, ins, t):
        if type(t) is not T:
            return t
        try:
            return self.int(t)
        except NoRep:
            return t


def install(I, reps=None, note=None):
    """note(what): something no correct program does"""
    def integral(v):
        a = RL.single(v) if type(v) is R else None
        return type(v) is float and v == int(v) or a is not None and a.kind in ("int", "round", "floor", "trunc", "fdiv2", "tdiv", "in")

    def num(x):
        return type(x) in (float, R)

    def shl(I, st, ins, args):
        v, n = args[:2]
        if type(n) is not int or n > 900:
            if note is not None and type(n) is int:
                note(ins, "shift left by %d" % (n if n < 1 << 63 else n - (1 << 64)))
            return st, RL.fn("shl", v, RL.var("amount %s" % D.show(n, 2)))
        return st, RL.mul(v, 2.0 ** n)

    def shr(kind):
        def go(I, st, ins, args):
            v, n = args[:2]
            if type(n) is not int:
                raise Stop("shift of a big integer by an unknown amount")
            if n == 0:
                return st, v
            if n > 1 << 40 and note is not None:
                note(ins, "shift right by %d" % (n if n < 1 << 63 else n - (1 << 64)))
            if type(v) is float:
                z = int(v)
                return st, float(z >> n if kind == "fdiv2" else (abs(z) >> n) * (1 if z >= 0 else -1))
            a = RL.single(v)
            if a is not None and a.kind == kind and type(a.args[1]) is float:
                v, n = a.args[0], n + int(a.args[1])
            return st, RL.fn(kind, v, float(n))
        return go

    def div(kind):
        def go(I, st, ins, args):
            a, b = args[:2]
            if type(a) is float and type(b) is float and b:
                q = abs(int(a)) // abs(int(b)) * (1 if (a >= 0) == (b >= 0) else -1) if kind == "tdiv" else int(a) // int(b)
                return st, float(q)
            return st, RL.fn(kind, a, b)
        return go

    def trunc(I, st, ins, args):
        v = args[0]
        if integral(v):
            return st, v
        return st, RL.fn("trunc", v)

    def get_si(I, st, ins, args):
        v = args[0]
        if type(v) is float:
            return st, int(v) & ((1 << 64) - 1)
        return st, I.fromreal(v, 64)

    def bits(I, st, ins, args):
        v = args[0]
        if reps is None:
            raise Stop("bit length of an unknown number")
        return st, int(abs(reps.val(v))).bit_length()

    for nm, h in (("shl", shl), ("fdiv2", shr("fdiv2")), ("tdiv2", shr("tdiv2")), ("tdiv", div("tdiv")), ("fdiv", div("fdiv")), ("trunc", trunc), ("get_si", get_si), ("bits", bits)):
        I.icp["@fl_mpz_" + nm] = h
    I.hcache = None
    if reps is not None:
        I.oncmp = reps.cmp
