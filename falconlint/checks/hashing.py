"""P13: hashing to a point."""
import numpy as np

import models as MO
import tab
from chk import *
from lib import *
from checks.verify import table

NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite")
KQ = 5 * Q
VALS = np.arange(1 << 16)
ACC = (VALS < KQ).astype(np.int64)


def patterns(N, tier):
    """acceptance patterns of the candidates; the accepting and the rejecting ones together
    visit every combination of coefficient and place in a block"""
    blk = 68
    step = 1 if tier == "thorough" else 4
    for r in range(0, blk, step):
        yield "%d rejected, then all accepted" % r, lambda j, r=r: j >= r
        yield "%d rejected, then every other one" % r, lambda j, r=r: j >= r and (j - r) % 2 == 0
    yield "three blocks rejected, twice", lambda j: not (j < 3 * blk or 5 * blk <= j < 8 * blk)
    yield "the last coefficient after a rejected block", lambda j: j < N - 1 or j >= N - 1 + 3 * blk
    yield "irregular", lambda j: (j * 2654435761 >> 13) % 7 != 0
    yield "irregular, mostly rejected", lambda j: (j * 2654435761 >> 11) % 5 == 0


_LEAF = {}


def leaf(t):
    """the candidate a node depends on"""
    if t not in _LEAF:
        s = tab.leaves(t)
        _LEAF[t] = next(iter(s)) if len(s) == 1 and type(next(iter(s))) is tuple and next(iter(s))[0] == "cand" else None
    return _LEAF[t]


def run(m, N, label, pat):
    def go(ctx):
        fresh_domains()
        _LEAF.clear()
        f = func(m, r"^void hashing::hash_to_point<%dul>\(" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        mlen = D.atom("mlen", 64)
        salt, msg, poly = bytes_in("salt", 40), Obj("msg", mlen, "cinput", None, 1), out("poly", 2 * N)
        want = ("inc",) + tuple(("b", read(I, State(), salt, i, 8)) for i in range(40)) + (("region", "msg", 0, mlen),)
        odd = []
        told = set()
        far = [0]

        def seq(v):
            return MO.ABSL[v[0]]

        def xread(I, st, ins, args):
            p, cur = MO.xof_get(I, st, args[0])
            n = args[2]
            if type(n) is not int:
                raise Stop("XOF read of unknown length")
            ok = type(cur) is Opq and cur.kind == "xof" and type(cur.v[1]) is tuple
            if not ctx.need("the stream is SHAKE256(salt || message)", ok and seq(cur.v) == want, w, lambda: "absorbed is %s" % (desc(seq(cur.v)) if ok else "%r" % (cur,))):
                raise Done()
            off = cur.v[1][1]
            dst = MO.pick(I, st, args[1])
            if I.checkptr(st, dst, n, ins, "write"):
                for k in range(n):
                    c = D.inbits(("cand", (off + k) // 2), 16, 16)
                    I.write(st, dst.obj, dst.off + k, 1, D.trunc(D.lshr(c, 8, 16) if (off + k) % 2 == 0 else c, 16, 8))
            far[0] = off + n
            if far[0] > 2 * 40 * N:
                raise Done()
            MO.xof_put(I, st, p, Opq("xof", (cur.v[0], (None, off + n))))
            return st, None

        def cmp(ins, t):
            z = leaf(t)
            if z is None:
                return t
            try:
                r = table(t, z, VALS, "cand", False)
            except tab.NoTable:
                return t
            if z in told:
                # what is known about this candidate already
                x = r[ACC == int(pat(z[1]))]
                return int(x[0]) if np.all(x == x[0]) else t
            for flip in (0, 1):
                d = np.nonzero(r != (ACC ^ flip))[0]
                if len(d) == 0:
                    told.add(z)
                    ctx.need("exactly the candidates below 5q are accepted", True, w, "")
                    return int(pat(z[1])) ^ flip
                if len(d) < 6000:
                    ctx.need("exactly the candidates below 5q are accepted", False, w, lambda: "the candidate %d is treated like one %s 61445" % (d[0], "not below" if d[0] < KQ else "below"))
                    raise Done()
            return t

        def branch(ins, c, t, st):
            z = leaf(c) if t is None else None
            if z is not None and z in told:
                # what the path says about the candidate may settle it
                try:
                    keep = ACC == int(pat(z[1]))
                    for x in st.pc:
                        if leaf(x) == z:
                            keep &= table(x, z, VALS, "cand", False) != 0
                    r = table(c, z, VALS, "cand", False)[keep]
                except tab.NoTable:
                    return None
                if len(r) and np.all(r == r[0]):
                    return int(r[0])
                return None
            if t is None and len(odd) < 50:
                if z is not None:
                    r = table(c, z, VALS, "cand", False)
                    k = np.nonzero(np.diff(r))[0]
                    if len(k) != 1 or k[0] + 1 not in (Q, 2 * Q, 3 * Q):
                        odd.append("candidates are told apart at %s (%s)" % ([int(x) + 1 for x in k[:4]], I.where(ins)))
        I.icp[next(n for n, d in m.dem.items() if d.startswith("shake256::shake256<true>::read("))] = xread
        I.oncmp = cmp
        I.onbranch = branch
        I.K = 8
        I.maxsteps = 3_000_000
        try:
            st, _ = I.call(f, [P(salt), 40, P(msg), mlen, P(poly)], State())
        except Done:
            ctx.need("hashing ends once N candidates were accepted", ctx.viol, w, "after %d candidates it has not ended (%s)" % (far[0] // 2, label))
            return
        except Stop as e:
            if odd:
                ctx.need("exactly the candidates below 5q are accepted", False, w, odd[0])
                return
            raise
        want = []
        j = 0
        while len(want) < N:
            if pat(j):
                want.append(j)
            j += 1
        bad = 0
        rule = "coefficients are the accepted candidates modulo q, in order"
        for i in range(N):
            v = read(I, st, poly, 2 * i, 16)
            z = None if v is UNDEF else leaf(v)
            if z is None:
                known = v is UNDEF or type(v) is int or {x for x in tab.leaves(v)} and all(type(x) is tuple and x[0] == "cand" for x in tab.leaves(v))
                bad += not ctx.need(rule, False, w, lambda: "coefficient %d is %s (%s)" % (i, "never written" if v is UNDEF else D.show(v, 3)[:200], odd[0] if odd else label), und=not known)
            else:
                ok = ctx.need(rule, z[1] == want[i], w, lambda: "coefficient %d is candidate %d, must be candidate %d (%s)" % (i, z[1], want[i], label))
                if ok:
                    r = table(v, z, VALS, "cand", False)[:KQ]
                    d = np.nonzero(r != VALS[:KQ] % Q)[0]
                    ok = ctx.need(rule, len(d) == 0, w, lambda: "the candidate %d becomes the coefficient %d, must be %d" % (d[0], r[d[0]], d[0] % Q))
                bad += not ok
            if bad > 2:
                break
        ctx.obligations(I, NOUB, "hash_to_point: no undefined behaviour")
        ctx.took(I)
    return go


class Done(Exception):
    pass


def desc(seq):
    r = []
    for x in seq:
        if type(x) is tuple and x[0] == "region":
            r.append("%s from %s, %s bytes" % (x[1], D.show(x[2], 1) if type(x[2]) is T else x[2], D.show(x[3], 2)))
        elif type(x) is tuple and x[0] == "b":
            r.append(D.show(x[1], 1) if x[1] is not UNDEF else "undefined")
    return ("%d parts: " % len(r)) + ", ".join(r[:3]) + (" ... " + r[-1] if len(r) > 3 else "")


def p13(ctx):
    m = module()
    ctx.assume = ["SHAKE256 is what its name says (the library is not part of the repository)"]
    jobs = []
    for N in (1024, 512):
        ps = list(patterns(N, ctx.tier))
        jobs += [batch(m, N, ps[k::4]) for k in range(4)]
    ctx.fork(jobs)
    ctx.minimum("coefficients are the accepted candidates modulo q, in order", 2 * 1536 * 30)
    ctx.minimum("exactly the candidates below 5q are accepted", 1536 * 30)


def batch(m, N, ps):
    def go(ctx):
        for label, pat in ps:
            run(m, N, label, pat)(ctx)
            if ctx.viol:
                break
    return go
