"""P16, P17: the pseudo-random generator and the integer sampler."""
import numpy as np

import models as MO
import rex
import tab
from chk import *
from lib import *

NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite", "fptoint")
RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903, 8595902006365044063,
        1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299, 638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
CEXP = [0x4741183A3, 0x36548CFC06, 0x24FDCBF140A, 0x171D939DE045, 0xD00CF58F6F84, 0x680681CF796E3, 0x2D82D8305B0FEA, 0x11111110E066FD0,
        0x555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000]
LN2 = 0.69314718056
SMAX = 1.8205
M64 = (1 << 64) - 1


def show(v):
    return RL.rshow(rex.expand(v))[:240] if type(v) is R else repr(v)


def sym(m, pat):
    r = [n for n, d in m.dem.items() if re.search(pat, d)]
    if len(r) != 1:
        raise Anchor("%d functions match /%s/" % (len(r), pat))
    return r[0]


import re  # noqa: E402


# ------------------------------------------------------------------- P16
def p16(ctx):
    m = module()
    ctx.assume = ["SHAKE256 is what its name says (the library is not part of the repository)", "std::random_device delivers independent uniform values"]
    fresh_domains()
    f = func(m, r"^prng::prng_t::prng_t\(\)", len([1 for x in m.funcs.values() if re.search(r"^prng::prng_t::prng_t\(\)", x.dem)]))
    fs = f if isinstance(f, list) else [f]
    for f in fs:
        w = fwhere(None, f, m)
        I = interp(m)
        rng = Obj("rng", 224, "alloca")
        st, _ = I.call(f, [P(rng)], State())
        _, cur = MO.xof_get(I, st, P(rng))
        ok = type(cur) is Opq and cur.kind == "xof" and type(cur.v[1]) is tuple and cur.v[1][1] == 0
        if not ctx.need("the generator is SHAKE256, at the start of its output", ok, w, lambda: "its state is %r" % (cur,)):
            continue
        seq = MO.ABSL[cur.v[0]]
        by = [x[1] for x in seq[1:] if type(x) is tuple and x[0] == "b"]
        ctx.need("the seed is 32 bytes", len(by) == 32 and len(seq) == 33, w, "%d bytes are absorbed" % len(by))
        bits = []
        for j, x in enumerate(by):
            if type(x) is T and x.op == "bits":
                lits = [D.LITN[(b >> 1) - 1] for b in x.args if b > 1]
            else:
                lits = []
            good = len(lits) == 8 and all(type(s) is tuple and s[0] == "entropy" for s, _ in lits)
            ctx.need("every seed byte is eight bits of system entropy", good, w, lambda: "byte %d of the seed is %s" % (j, "never written" if x is UNDEF else D.show(x, 2)))
            bits += lits
        ctx.need("no entropy is used twice", len(bits) == len(set(bits)), w, "%d seed bits are made of %d bits of entropy" % (len(bits), len(set(bits))))
        ctx.obligations(I, NOUB, "prng: no undefined behaviour")
        ctx.took(I)
    f = func(m, r"^prng::prng_t::read\(")
    w = fwhere(None, f, m)
    I = interp(m)
    i = MO.abs_id(("hash", "seed"))
    rng = Obj("rng", 224, "alloca")
    st = State()
    MO.xof_put(I, st, P(rng), Opq("xof", (i, (None, 0))))
    pos = 0
    for n in (1, 9, 40, 8, 0, 2, 136, 137, 1, 300):
        buf = out("buf", n + 2)
        for k in (0, n + 1):
            I.write(st, buf, k, 1, 77)
        st, _ = I.call(f, [P(rng), P(buf, 1), n], st)
        bad = None
        for k in range(n):
            x = read(I, st, buf, 1 + k, 8)
            if x is UNDEF or x != D.inbits(("xof", i, None, pos + k), 8, 8):
                bad = (k, "never written" if x is UNDEF else D.show(x, 2))
                break
        ctx.need("reading gives the next bytes of the output, each once", bad is None, w, lambda: "byte %d of a read of %d after %d bytes is %s" % (bad[0], n, pos, bad[1]))
        ctx.need("reading writes nothing else", read(I, st, buf, 0, 8) == 77 and read(I, st, buf, n + 1, 8) == 77, w, "a read of %d bytes writes beyond the buffer" % n)
        pos += n
    ctx.obligations(I, NOUB, "prng: no undefined behaviour")
    ctx.took(I)
    ctx.minimum("every seed byte is eight bits of system entropy", 32)


# ------------------------------------------------------------------- P17
class Rng:
    """stand-in for the generator"""

    def __init__(self, ctx, w, feed):
        self.ctx, self.w, self.feed = ctx, w, feed
        self.pos = 0
        self.reads = []
        self.obj = Obj("rng", 224, "input", None, 1)

    def read(self, I, st, ins, args):
        p, dst, n = args[:3]
        self.ctx.need("randomness comes from the generator given", p == P(self.obj), self.w, lambda: "bytes are read from %r" % (p,))
        if type(n) is not int:
            raise Stop("random bytes of unknown number")
        if I.checkptr(st, dst, n, ins, "write"):
            for k in range(n):
                I.write(st, dst.obj, dst.off + k, 1, self.feed(self.pos + k))
        self.pos += n
        self.reads.append(n)
        return st, None


def consts(t, src, out, seen):
    """does t depend on src through comparisons with constants only?  collects the constants"""
    if type(t) is not T or t in seen:
        return True
    seen.add(t)
    if t.op in ("ult", "eq", "slt"):
        a, b = t.args
        if type(a) is int:
            a, b = b, a
        if type(a) is T and a == D.inbits(src, 64, 64) and type(b) is int:
            out.add(b)
            if t.op == "slt":
                out.update((0, 1 << 63))
            return True
    if t.op == "atom":
        return True
    if t.op == "band" and len(t.args[0]) == 64:
        # every bit is fixed: equality with a constant
        v = {}
        for x in t.args[0]:
            if type(x) is T and x.op == "bits" and x.args[0] > 1:
                s, k = D.LITN[(x.args[0] >> 1) - 1]
                if s == src:
                    v[k] = x.args[0] & 1 ^ 1
        if len(v) == 64:
            out.add(sum(b << k for k, b in v.items()))
            return True
    if t.op == "bits":
        for b in t.args:
            if b > 1:
                s = D.LITN[(b >> 1) - 1][0]
                if not isinstance(s, T):
                    return False
                if not consts(s, src, out, seen):
                    return False
        return True

    def sub(x):
        if isinstance(x, (tuple, frozenset)):
            return all(sub(y) for y in x)
        return consts(x, src, out, seen)
    return sub(t.args)


def base(m):
    def go(ctx):
        f = func(m, r"^samplerz::base_sampler\(prng")
        w = fwhere(None, f, m)
        rule = "the base sampler counts the table entries above a 72-bit value"
        read_ = sym(m, r"^prng::prng_t::read\(")
        for h in range(256):
            fresh_domains()
            I = interp(m)
            I.K = 64
            lo = D.inbits(("lo",), 64, 64)
            G = Rng(ctx, w, lambda k: h if k == 8 else D.trunc(D.lshr(lo, 8 * k, 64), 64, 8) if k < 8 else D.fresh("more", 8))
            I.icp[read_] = G.read
            st, r = I.call(f, [P(G.obj)], State())
            if not ctx.need("the base sampler uses nine bytes", G.pos == 9, w, "it reads %d bytes" % G.pos):
                return
            ks = set()
            ok = consts(r, ("lo",), ks, set())
            pts = sorted({x for k in ks | {c & M64 for c in RCDT} for x in (k - 1, k, k + 1) if 0 <= x <= M64} | {0, M64, 1 << 32, 0x0102030405060708})
            try:
                got = np.broadcast_to(tab.vec(r, {("lo",): np.array(pts, dtype=np.uint64).astype(np.int64)}), (len(pts),))
            except tab.NoTable as e:
                ctx.need(rule, False, w, "the result depends on %s" % e, und=True)
                return
            want = [sum((h << 64 | x) < c for c in RCDT) for x in pts]
            bad = [k for k in range(len(pts)) if int(got[k]) != want[k]]
            if not ctx.need(rule, not bad, w, lambda: "for the value %d it gives %d, must be %d" % (h << 64 | pts[bad[0]], got[bad[0]], want[bad[0]])):
                return
            ctx.need(rule, ok, w, "the result does not depend on the value through comparisons only", und=True)
            if h in (0, 255):
                ctx.obligations(I, NOUB, "sampler: no undefined behaviour")
                ctx.took(I)
    return go


def real_leaves(t):
    return [z for z in tab.leaves(t) if type(z) is T and z.op == "fromreal"]


def nofloor(I):
    """conversion to an unsigned integer truncates: floor before it changes nothing for the
    non-negative arguments met here"""
    old = I.fromreal

    def conv(v, w):
        a = RL.single(v) if type(v) is R else None
        return old(a.args[0] if a is not None and a.kind in ("floor", "trunc") else v, w)
    I.fromreal = conv


def expo(m):
    def go(ctx):
        fresh_domains()
        f = func(m, r"^samplerz::approx_exp\(")
        w = fwhere(None, f, m)
        mul = func(m, r"^samplerz::full_mul_u64\(")
        rule = "approx_exp is the fixed-point polynomial of the specification"
        x, ccs = RL.var("x"), RL.var("ccs")

        def both(stub):
            I = interp(m)
            I.K = 20
            nofloor(I)
            if stub:
                # the product as P27 decides it; both factors are below 2^63, so it has 126 bits
                I.icp[mul.name] = lambda I, st, ins, args: (st, prod(*args[:2]))
            st, r = I.call(f, [x, ccs], State())
            zx, zc = (I.fromreal(RL.mul(v, float(1 << 63)), 64) for v in (x, ccs))

            def top(a, b):
                hi, lo = prod(a, b) if stub else I.call(mul, [a, b], State())[1]
                return D.or_(D.shl(D.and_(hi, (1 << 62) - 1, 64), 1, 64), D.lshr(lo, 63, 64), 64)
            y = CEXP[0]
            for u in range(1, 13):
                y = D.sub(CEXP[u], top(zx, y), 64)
            return I, r, top(zc, y), zx, zc

        def prod(a, b):
            k = frozenset((a, b))
            return D.inbits(("hi", k), 62, 64), D.inbits(("lo", k), 64, 64)
        I, r, y, zx, zc = both(True)
        if r == y:
            ctx.obligations(I, [k for k in NOUB if k != "fptoint"], "sampler: no undefined behaviour")
        ctx.took(I)
        if r != y:
            I, r, y, zx, zc = both(False)
            ctx.obligations(I, [k for k in NOUB if k != "fptoint"], "sampler: no undefined behaviour")
        for z in real_leaves(r):
            if not ctx.need("approx_exp scales its arguments by 2^63", z in (zx, zc), w, lambda: "it uses the integer part of %s" % show(z.args[0].r)):
                return
        if r == y:
            ctx.need(rule, True, w, "")
            return
        rnd = __import__("random").Random(5)
        zs = [0, 1, M64 >> 2, 1 << 62, int(0.6931 * (1 << 63))] + [rnd.randrange(int(0.6931 * (1 << 63))) for _ in range(60)]
        cs = [1 << 63, int(0.7 * (1 << 63)), 1 << 62] + [rnd.randrange(1 << 62, 1 << 63) for _ in range(62)]
        env = {zx: np.array(zs, dtype=np.uint64), zc: np.array(cs, dtype=np.uint64)}
        try:
            a, b = tab.vec(r, env) * np.ones(65, dtype=np.uint64), tab.vec(y, env)
        except tab.NoTable as e:
            ctx.need(rule, False, w, "the result depends on %s" % e, und=True)
            return
        k = np.nonzero(a != b)[0]
        ctx.need(rule, not len(k), w, lambda: "for x = %d/2^63 and ccs = %d/2^63 it gives %d, must be %d" % (zs[k[0]], cs[k[0]], a[k[0]], b[k[0]]))
        if not len(k):
            ctx.need(rule, False, w, "the result has another form", und=True)
    return go


def rex_equal(a, b):
    return type(a) in (R, float) and RL.equal(a, b, 1e-9)


def points(n=6000):
    """values of the bytes and the exponential at which conditions are compared"""
    rnd = np.random.RandomState(3)
    env = {("rnd", k): rnd.randint(0, 256, n) for k in range(9)}
    e = rnd.randint(0, 1 << 62, n).astype(np.int64) * 2 + rnd.randint(0, 2, n)
    e[: n // 8] >>= rnd.randint(0, 62, n // 8)
    e[n // 8: n // 8 + 20] = (1 << 63) - 1
    env[("exp",)] = np.maximum(e, 1) - 1
    return env


def zbytes(s, env):
    z = ((env[("exp",)].astype(np.uint64) * np.uint64(2)) + np.uint64(1)) >> np.uint64(min(s, 63))
    return [((z >> np.uint64(56 - 8 * k)) & np.uint64(255)).astype(np.int64) for k in range(8)]


def forms(a, z, k):
    """ways to write  a == b  and  a < b  for a random byte a and byte k of z"""
    for wz in (64, 32):
        x = D.lshr(z, 56 - 8 * k, 64)
        b = D.and_(x, 255, 64) if wz == 64 else D.and_(D.trunc(x, 64, 32), 255, 32)
        c = D.zext(a, 8, wz)
        d, d2 = D.sub(c, b, wz), D.sub(b, c, wz)
        yield "eq", 0, D.eq(d, 0, wz)
        yield "eq", 0, D.eq(c, b, wz)
        yield "eq", 0, D.eq(d2, 0, wz)
        yield "lt", 0, D.slt(d, 0, wz)
        yield "lt", 0, D.ult(c, b, wz)
        yield "lt", 0, D.slt(c, b, wz)
        yield "lt", 0, D.slt(0, d2, wz)
        yield "gt", 0, D.slt(0, d, wz)
        yield "gt", 0, D.ult(b, c, wz)
        yield "gt", 0, D.slt(b, c, wz)
        yield "gt", 0, D.slt(d2, 0, wz)
    b = D.trunc(D.lshr(z, 56 - 8 * k, 64), 64, 8)
    yield "eq", 0, D.eq(a, b, 8)
    yield "lt", 0, D.ult(a, b, 8)
    yield "gt", 0, D.ult(b, a, 8)


def bernoulli(m, ss):
    def go(ctx):
        f = func(m, r"^samplerz::ber_exp\(double, double, prng")
        w = fwhere(None, f, m)
        rule = "ber_exp compares the bytes of z with random bytes, most significant first"
        for s in ss:
            for e in range(9):
                # a byte of z that is zero is not above any other
                for less in (0, 1) if e < 8 and e >= min(s, 63) // 8 else (0,):
                    one(ctx, f, w, rule, s, e, less)
                    if ctx.viol:
                        return

    def one(ctx, f, w, rule, s, e, less):
        fresh_domains()
        I = interp(m)
        x, ccs = RL.var("x"), RL.var("ccs")
        rb = [D.inbits(("rnd", k), 8, 8) for k in range(9)]
        G = Rng(ctx, w, lambda k: rb[min(k, 8)])
        I.icp[sym(m, r"^prng::prng_t::read\(")] = G.read
        xs = RL.mul(x, 1.0 / LN2)
        sx = RL.fn("floor", xs)
        E = D.add(D.inbits(("exp",), 63, 64), 1, 64)    # 2^63 * ccs * exp(-r), not 0

        def approx(I, st, ins, args):
            ok = any(rex_equal(args[0], RL.sub(x, RL.mul(v, LN2))) for v in (sx, float(s)))
            ctx.need("ber_exp splits x = s*ln2 + r and approximates ccs*exp(-r)", ok, w, lambda: "r is %s, must be x - floor(x / ln2) * ln2" % show(args[0]))
            ctx.need("ber_exp splits x = s*ln2 + r and approximates ccs*exp(-r)", rex_equal(args[1], ccs), w, lambda: "ccs is %s" % show(args[1]))
            return st, E
        I.icp[func(m, r"^samplerz::approx_exp\(").name] = approx
        old = I.fromreal

        def conv(v, wd):
            if rex_equal(v, sx) or rex_equal(v, xs):
                return s & ((1 << wd) - 1)
            ctx.need("ber_exp shifts by s, at most 63", False, w, lambda: "the integer part of %s is used" % show(v))
            return old(v, wd)
        I.fromreal = conv
        Z = D.lshr(D.sub(D.shl(E, 1, 64), 1, 64), min(s, 63), 64)
        zc = {}
        known = {}
        for k in range(8):
            for kind, _, c in forms(rb[k], Z, k):
                if type(c) is T:
                    known.setdefault(c, (kind, k, 0))
                    known.setdefault(D.bnot(c), (kind, k, 1))
        pe = points()
        zb = zbytes(s, pe)
        last = [-1]
        told = {}

        def truth(kind, k):
            """outcome in this history"""
            if kind == "eq":
                return int(k < e)
            if k < e:
                return 0
            return less if kind == "lt" else 1 - less

        def cmp(ins, t):
            r = known.get(t)
            if r is None and type(t) is T:
                # which comparison is it, as a function?
                try:
                    v = tab.vec(t, pe)
                except tab.NoTable:
                    return t
                for k in range(8):
                    if ("rnd", k) in tab.leaves(t):
                        env = dict(pe)
                        env[("rnd", k)] = np.where(np.arange(len(zb[k])) % 3 == 0, zb[k], pe[("rnd", k)])
                        v = tab.vec(t, env)
                        for kind, c in (("eq", env[("rnd", k)] == zb[k]), ("lt", env[("rnd", k)] < zb[k]), ("gt", env[("rnd", k)] > zb[k])):
                            for flip in (0, 1):
                                if np.array_equal(v, (c ^ flip).astype(np.uint64)):
                                    r = (kind, k, flip)
                        if r is None:
                            ctx.need(rule, False, w, lambda: "random byte %d is compared with something else than byte %d of z: %s" % (k, 7 - k, D.show(t, 6)[:300]))
                            return t
                        ctx.need(rule, False, w, "a comparison has an unknown form: %s" % D.show(t, 6)[:300], und=True)
                        known[t] = r
            if r is None:
                return t
            kind, k, flip = r
            last[0] = max(last[0], k)
            return truth(kind, k) ^ flip
        I.oncmp = cmp
        st, r = I.call(f, [x, ccs, P(G.obj)], State())
        h = "where s = %d, %d bytes are equal and the next is %s" % (s, e, "smaller" if less else "greater") if e < 8 else "where s = %d and all bytes are equal" % s
        ctx.need("ber_exp uses one random byte per comparison", G.pos == min(e + 1, 8), w, lambda: "%d bytes are read %s" % (G.pos, h))
        ctx.need(rule, r == less if type(r) is int else False, w, lambda: "%s the result is %s, must be %d" % (h, D.show(r, 4)[:300], less), und=type(r) is not int)
        ctx.obligations(I, [k for k in NOUB if k != "fptoint"], "sampler: no undefined behaviour")
        ctx.took(I)
    return go


def gauss(m, cases):
    def go(ctx):
        f = func(m, r"^samplerz::samplerz\(double, double, double, prng")
        w = fwhere(None, f, m)
        for hist in cases:
            fresh_domains()
            I = interp(m)
            mu, sp, smin = RL.var("mu"), RL.var("sigma"), RL.var("sigma_min")
            k = {"base": 0, "ber": 0, "bit": 0}
            free = [0]

            def feed(j):
                b = hist[min(k["bit"], len(hist) - 1)][1]
                k["bit"] += 1
                free[0] += 1
                bs = [b] + [D.lit(("rnd", free[0]), i) for i in range(7)]
                return D.mkbits(bs)
            G = Rng(ctx, w, feed)
            I.icp[sym(m, r"^prng::prng_t::read\(")] = G.read

            def base(I, st, ins, args):
                ctx.need("randomness comes from the generator given", args[-1] == P(G.obj), w, "the base sampler draws from another generator")
                z0 = hist[min(k["base"], len(hist) - 1)][0]
                k["base"] += 1
                return st, z0

            def ber(I, st, ins, args):
                j = k["ber"]
                k["ber"] += 1
                z0, b, acc = hist[min(j, len(hist) - 1)]
                if j >= len(hist) + 3:
                    raise Over()
                ctx.need("every attempt uses one base sample and one sign bit of its own", k["base"] == j + 1 and k["bit"] == j + 1, w, lambda: "attempt %d comes after %d base samples and %d sign bytes" % (j, k["base"], k["bit"]))
                z = b + (2 * b - 1) * z0
                r = RL.sub(mu, RL.fn("floor", mu))
                d = RL.sub(float(z), r)
                x = RL.sub(RL.div(RL.mul(d, d), RL.mul(2.0, RL.mul(sp, sp))), z0 * z0 / (2 * SMAX * SMAX))
                for what, u, v in zip(("x", "ccs"), args, (x, RL.div(smin, sp))):
                    ctx.need("x = (z-r)^2/(2 sigma'^2) - z0^2/(2 sigma_max^2), ccs = sigma_min/sigma'", rex_equal(u, v), w, lambda: "for z0 = %d and b = %d, %s is %s, must be %s" % (z0, b, what, show(u), show(v)))
                ctx.need("randomness comes from the generator given", args[2] == P(G.obj), w, "the Bernoulli sampler draws from another generator")
                return st, int(acc)
            I.icp[func(m, r"^samplerz::base_sampler\(prng").name] = base
            I.icp[func(m, r"^samplerz::ber_exp\(double, double, prng").name] = ber
            h = "attempts %s" % ", ".join("(z0=%d, b=%d, %s)" % (a, b, "accepted" if c else "rejected") for a, b, c in hist)
            try:
                st, r = I.call(f, [mu, sp, smin, P(G.obj)], State())
            except Over:
                ctx.need("the sample is that of the first accepted attempt", False, w, "%s: sampling does not end" % h)
                return
            z0, b, _ = hist[-1]
            want = I.fromreal(RL.add(float(b + (2 * b - 1) * z0), RL.fn("floor", mu)), 32)
            ctx.need("the sample is that of the first accepted attempt", k["ber"] == len(hist), w, lambda: "%s: it ends after %d attempts" % (h, k["ber"]))
            ctx.need("the sample is z + floor(mu)", alike(r, b + (2 * b - 1) * z0, mu), w, lambda: "%s: the result is %s, must be %s" % (h, D.show(r, 5)[:200], D.show(want, 5)))
            ctx.obligations(I, [k_ for k_ in NOUB if k_ not in ("fptoint", "overflow")], "sampler: no undefined behaviour")
            ctx.took(I)
            if ctx.viol:
                return
    return go


def alike(r, z, mu):
    """r = z + floor(mu), added as integers or as reals"""
    if type(r) is not T:
        return False
    fl = RL.fn("floor", mu)
    if r.op == "fromreal":
        return rex_equal(r.args[0].r, RL.add(fl, float(z)))
    if r.op == "lin" and len(r.args[1]) == 1:
        (a, c), = r.args[1]
        return c == 1 and D.sgn(r.args[0], r.w) == z and (a.op == "fromreal" and rex_equal(a.args[0].r, fl) or a.op == "trunc" and a.args[0].op == "fromreal" and rex_equal(a.args[0].args[0].r, fl))
    if r.op == "trunc":
        return alike(r.args[0], z, mu)
    return False


class Over(Exception):
    pass


def p17(ctx):
    m = module()
    ctx.assume = ["floating-point rounding is not modelled: doubles are read as real numbers", "the 72-bit comparison and the wide product are as P26 and P27 establish",
                  "0 <= x, and sigma_min <= sigma' <= 1.8205, as the key's tree guarantees; mu + 19 fits 32 bits"]
    cases = [[(z0, b, 1)] for z0 in range(19) for b in (0, 1)]
    rej = [[(z0 * 7 % 19, b, 0), ((z0 * 5 + 3) % 19, 1 - b, 0), (z0, b, 1)] for z0 in range(19) for b in (0, 1)]
    ss = list(range(0, 66)) + [100, 255, 256, 1000000] if ctx.tier == "thorough" else [0, 1, 7, 8, 31, 62, 63, 64, 65, 256, 1000000]
    ctx.fork([base(m), expo(m), gauss(m, cases), gauss(m, rej)] + [bernoulli(m, ss[k::4]) for k in range(4)])
    ctx.minimum("the base sampler counts the table entries above a 72-bit value", 256)
    ctx.minimum("x = (z-r)^2/(2 sigma'^2) - z0^2/(2 sigma_max^2), ccs = sigma_min/sigma'", 2 * 38)
    ctx.minimum("ber_exp splits x = s*ln2 + r and approximates ccs*exp(-r)", 100)
