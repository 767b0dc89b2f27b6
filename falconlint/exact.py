"""Exact integer reading of value-graph nodes: polynomials with integer
coefficients over inputs and floor quotients floor(P / 2^k), in a normal form
in which carries and split halves of products cancel."""
from fractions import Fraction
from math import ceil, floor

import dom as D
from dom import T


class NoExact(Exception):
    pass


class Exact:
    def __init__(self):
        self.memo = {}
        self.fl = {}
        self.rng = {}
        self.inv = {}

    # polynomial: dict monomial(tuple of sorted atoms) -> int
    def const(self, c):
        return {(): c} if c else {}

    def add(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def scale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def mrange(self, m):
        lo = hi = 1
        for a in m:
            l, h = self.rng[a]
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mrange(m)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return lo, hi

    def tight(self, p):
        """bounds of p with floor(P/2^w) read as P/2^w - [0, 1): keeps correlations"""
        lo = hi = Fraction(0)
        p = {m: Fraction(c) for m, c in p.items()}
        for _ in range(200):
            for m in p:
                if len(m) == 1 and m[0] in self.inv:
                    break
            else:
                break
            c = p.pop(m)
            P, w = self.inv[m[0]]
            e = 1 - Fraction(1, 1 << w)
            lo, hi = lo + min(0, -c * e), hi + max(0, -c * e)
            for n, k in P:
                v = p.get(n, 0) + c * k / (1 << w)
                if v:
                    p[n] = v
                else:
                    p.pop(n, None)
        for m, c in p.items():
            l, h = self.mrange(m)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return ceil(lo), floor(hi)

    def floor(self, p, w):
        """normal form of floor(p / 2^w)"""
        if w == 0:
            return p
        p = dict(p)
        c0 = p.pop((), 0)
        out = self.const(c0 >> w)
        c0 &= (1 << w) - 1
        # whole multiples of 2^w leave the floor
        for m in list(p):
            q, r = p[m] >> w, p[m] & ((1 << w) - 1)
            if r == 0:
                out = self.add(out, {m: q})
                del p[m]
        if c0:
            p[()] = c0
        lo, hi = self.prange(p)
        if lo >> w == hi >> w:
            return self.add(out, self.const(lo >> w))
        if any(a in self.inv for m in p for a in m):
            lo, hi = self.tight(p)
            if lo >> w == hi >> w:
                return self.add(out, self.const(lo >> w))
        # common power of two of the high part
        vals = sorted({(c & -c).bit_length() - 1 for m, c in p.items()})
        if vals[0] > 0:
            k = vals[0]
            return self.add(out, self.floor({m: c >> k for m, c in p.items()}, w - k))
        for k in vals[:0:-1]:
            low = {m: c for m, c in p.items() if c % (1 << k)}
            high = {m: c >> k for m, c in p.items() if not c % (1 << k)}
            return self.add(out, self.floor(self.add(high, self.floor(low, k)), w - k))
        lead = min(p) if () not in p or len(p) == 1 else min(m for m in p if m)
        if p[lead] < 0:
            q = self.add(self.scale(p, -1), self.const(-1))
            return self.add(self.add(out, self.const(-1)), self.floor(q, w), -1)
        key = (tuple(sorted(p.items())), w)
        a = self.fl.get(key)
        if a is None:
            a = self.fl[key] = "F%d" % len(self.fl)
            self.inv[a] = key
            self.rng[a] = (lo >> w, hi >> w)
        return self.add(out, {(a,): 1})

    def wrap(self, p, w):
        lo, hi = self.prange(p)
        if 0 <= lo and hi < 1 << w:
            return p
        return self.add(p, self.scale(self.floor(p, w), 1 << w), -1)

    def signed(self, t, w):
        """signed reading"""
        p = self.of(t)
        H = 1 << (w - 1)
        q = self.add(p, self.const(H))
        lo, hi = self.prange(p)
        if hi < H:
            return p
        return self.add(p, self.scale(self.floor(q, w), 1 << w), -1)

    def of(self, t, w=None):
        if type(t) is not T:
            return self.const(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def atom(self, name, lo, hi):
        self.rng[name] = (lo, hi)
        return {(name,): 1}

    def _of(self, t):
        w, a, op = t.w, t.args, t.op
        if op == "atom":
            return self.atom("x%d" % t.id, t.ulo, t.uhi)
        if op == "bits":
            # maximal runs of consecutive bits of one source
            r = {}
            i = 0
            while i < w:
                b = a[i]
                if b < 2:
                    if b:
                        r = self.add(r, self.const(1 << i))
                    i += 1
                    continue
                src, k = D.LITN[(b >> 1) - 1]
                name = "b%d" % b if b & 1 == 0 else "b%d" % (b ^ 1)
                p = self.atom(name, 0, 1)
                if b & 1:
                    p = self.add(self.const(1), p, -1)
                r = self.add(r, self.scale(p, 1 << i))
                i += 1
            return r
        if op == "lin":
            r = self.const(D.sgn(a[0], w))
            for b, k in a[1]:
                r = self.add(r, self.of(b), D.sgn(k, w))
            return self.wrap(r, w)
        if op == "mul":
            return self.wrap(self.mul(self.of(a[0]), self.of(a[1])), w)
        if op == "add2":
            return self.wrap(self.add(self.of(a[0]), self.of(a[1])), w)
        if op == "shl" and type(a[1]) is int:
            return self.wrap(self.scale(self.of(a[0]), 1 << a[1]), w)
        if op == "lshr" and type(a[1]) is int:
            return self.floor(self.of(a[0]), a[1])
        if op == "and" and type(a[1]) is int and a[1] & (a[1] + 1) == 0:
            p = self.of(a[0])
            k = a[1].bit_length()
            return self.add(p, self.scale(self.floor(p, k), 1 << k), -1)
        if op == "and" and type(a[1]) is int:
            # a run of ones
            m = a[1]
            lo = (m & -m).bit_length() - 1
            hi = m.bit_length()
            if m == (1 << hi) - (1 << lo):
                p = self.of(a[0])
                return self.add(self.scale(self.floor(p, lo), 1 << lo), self.scale(self.floor(p, hi), 1 << hi), -1)
        if op == "zext":
            return self.of(a[0])
        if op == "sext":
            return self.wrap(self.signed(a[0], a[0].w), w)
        if op == "trunc":
            return self.wrap(self.of(a[0]), w)
        if op == "not":
            return self.add(self.const(1), self.of(a[0]), -1)
        if op == "ult":
            x, y = a
            d = self.add(self.add(self.of(y), self.of(x), -1), self.const(-1))
            ww = x.w if type(x) is T else y.w
            return self.add(self.const(1), self.floor(d, ww))
        if op == "slt":
            x, y = a
            ww = x.w if type(x) is T else y.w
            X = self.signed(x, ww) if type(x) is T else self.const(D.sgn(x, ww))
            Y = self.signed(y, ww) if type(y) is T else self.const(D.sgn(y, ww))
            return self.add(self.const(1), self.floor(self.add(self.add(Y, X, -1), self.const(-1)), ww))
        if op == "ite" and type(a[1]) is int and type(a[2]) is int:
            return self.add(self.const(a[2]), self.scale(self.of(a[0]), a[1] - a[2]))
        if op == "ite":
            c, x, y = self.of(a[0]), self.of(a[1]), self.of(a[2])
            return self.add(y, self.mul(c, self.add(x, y, -1)))
        if op == "ashr" and type(a[1]) is int:
            return self.wrap(self.floor(self.signed(a[0], w), a[1]), w)
        raise NoExact(op)

    def show(self, p):
        inv = {v: k for k, v in self.fl.items()}

        def at(x):
            k = inv.get(x)
            return x if k is None else "floor((%s)/2^%d)" % (self.show(dict(k[0])), k[1])
        return " + ".join("%s%s" % (c if c != 1 or not m else "", "*".join(map(at, m))) for m, c in list(p.items())[:8]) or "0"
