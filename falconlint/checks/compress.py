"""P04, P05: compressed signatures."""
import time

from chk import *
from lib import *

SLEN = {512: 666, 1024: 1280}
HEAD = 41
NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite")


# A symbol is (k, sign, j): the coefficient is -1^sign * (128 k + low), j is the lowest bit of low
# that is set (None: low = 0); the bits of low above j are unknown.  Every coefficient but the
# negative zero is an instance of exactly one symbol.
def lowbits(i, s):
    """the 7 low bits, lowest first"""
    j = s[2]
    if len(s) == 4:
        return [s[3] >> b & 1 for b in range(7)]
    if j is None:
        return [0] * 7
    return [0] * j + [1] + [(("low", i), b) for b in range(j + 1, 7)]


def known(bs):
    """bits of a term; a pair is an unknown bit"""
    return tuple(D.lit(*b) if type(b) is tuple else b for b in bs)


def coef(i, s):
    """the coefficient, as a 32-bit value"""
    k, sg = s[:2]
    if k >= 1 << 24:
        return 1 << 31
    m = D.mkbits(known(lowbits(i, s) + [k >> b & 1 for b in range(25)]))
    return D.sub(0, m, 32) if sg else m


def code(i, s):
    """its code, a list of bits in the order of the stream"""
    return [s[1]] + lowbits(i, s)[::-1] + [0] * s[0] + [1]


def room(N):
    return 8 * (SLEN[N] - HEAD)


class Gen:
    def __init__(self, seed):
        self.x = (seed * 2654435761 + 97) % (1 << 64)

    def r(self, n):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.x >> 33) % n


def symbol(g, k):
    j = (None, 0, 1, 2, 3, 4, 5, 6)[g.r(8)]
    sg = g.r(2)
    if k == 0 and j is None:
        sg = 0
    return k, sg, j


def spread(N, g, total, style):
    """unary parts of N coefficients, whose codes are `total` bits together"""
    ks = [0] * N
    left = total - 9 * N
    cap = (3, 12, 40, 500, 5000)[style]
    at = 0
    while left > 0:
        at = g.r(N)
        k = min(left, 1 + g.r(cap))
        ks[at] += k
        left -= k
    return ks


def histories(N, tier):
    """(label, symbols): sequences of coefficients; the codes end everywhere near the end of the
    body, or pass it at every place"""
    R = room(N)
    n = 0

    def mk_(total, style):
        nonlocal n
        n += 1
        g = Gen(n * 1000 + N)
        return [symbol(g, k) for k in spread(N, g, total, style)]
    for left in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 24, 25, 33):
        yield "a code %d bits short of the room" % left, mk_(R - left, n % 5)
    for left in (40, 64, 100, R - 9 * N):
        yield "a code %d bits short of the room" % left, mk_(R - left, n % 5)
    yield "a code as long as the room", mk_(R, 0)
    yield "a code as long as the room", mk_(R, 4)
    for over in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 60, 300, 4000):
        yield "a code %d bits longer than the room" % over, mk_(R + over, n % 5)
    # a single coefficient too large
    for at, k in ((0, R - 9), (0, R - 8), (0, R - 10), (0, R), (0, 1 << 20), (0, 1 << 24), (N // 2, (1 << 24) - 1), (N - 1, 1 << 24), (N - 1, 900), (N // 3, 8191), (N // 3, 16383), (N - 1, 1 << 16), (7, 1 << 23), (3, 65535)):
        g = Gen(at + k)
        h = [symbol(g, 0) for _ in range(N)]
        h[at] = (k, 1 if k >= 1 << 24 else g.r(2), None if k >= 1 << 24 else symbol(g, 1)[2])
        yield "coefficient %d about 128 * %d, the others small" % (at, k), h
    for k in range(400 if tier == "thorough" else 60):
        yield "irregular", mk_(R - 1 - Gen(k).r(R - 9 * N), k % 5)


def stream(N, h):
    b = []
    for i, s in enumerate(h):
        if len(b) + 9 + s[0] > 3 * room(N):
            return b + [0] * (9 + s[0]), i
        b += code(i, s)
    return b, N


def tobytes(bits):
    return [D.mkbits(known(bits[8 * i:8 * i + 8][::-1])) for i in range(len(bits) // 8)]


def sig_in(N, bits):
    bs = tobytes(bits)

    def gen(off, size):
        if size == 1:
            return bs[off - HEAD] if off >= HEAD else D.inbits(("head", off), 8, 8)
        return None
    return Obj("sig", SLEN[N], "cinput", gen, 1)


def fns(m, N):
    return (func(m, r"^bool encoding::compress_sig<%dul, %dul>\(" % (N, SLEN[N])), func(m, r"^bool decoding::decompress_sig<%dul, %dul>\(" % (N, SLEN[N])))


class Endless(Exception):
    pass


def ends(ctx, w, I, f, args):
    """ten times the steps ever needed to treat a whole body bit by bit"""
    try:
        r = I.call(f, args, State())
    except Stop as e:
        if I.steps >= I.maxsteps:
            ctx.need("every loop over the body ends", False, w, lambda: "a loop goes on for ever (%s)" % e)
            raise Endless()
        raise
    ctx.need("every loop over the body ends", True, w, "")
    return r


def runc(ctx, m, N, h):
    """compress: (True/False, state, interpreter, sig)"""
    f = fns(m, N)[0]
    w = "%s [N=%d]" % (fwhere(None, f, m), N)
    I = interp(m)
    I.maxsteps = 2_500_000
    I.maxtrip = 1 << 20
    I.maxcpu = time.process_time() + 40
    vals = {}

    def gen(off, size):
        if size == 4 and off % 4 == 0:
            i = off // 4
            if i not in vals:
                vals[i] = coef(i, h[i])
            return vals[i]
        return None
    s2 = Obj("s2", 4 * N, "cinput", gen, 4)
    sig = Obj("sig", SLEN[N], "input", lambda off, size: D.inbits(("old", off), 8, 8) if size == 1 else None, 1)
    st, v = ends(ctx, w, I, f, [P(s2), P(sig)])
    t = v & 1 if type(v) is int else I.decide(st, v)
    return I, st, t, sig, w, v


def rund(ctx, m, N, bits):
    f = fns(m, N)[1]
    w = "%s [N=%d]" % (fwhere(None, f, m), N)
    I = interp(m)
    I.maxsteps = 2_500_000
    I.maxtrip = 1 << 20
    I.maxcpu = time.process_time() + 40
    s2 = Obj("s2", 4 * N, "input", lambda off, size: D.atom("old[%d]" % (off // 4), 32) if size == 4 else None, 4)
    st, v = ends(ctx, w, I, f, [P(sig_in(N, bits)), P(s2)])
    t = v & 1 if type(v) is int else I.decide(st, v)
    return I, st, t, s2, w, v


def both(m, N, label, h):
    """compress and decompress one history"""
    def go(ctx):
        fresh_domains()
        R = room(N)
        bits, whole = stream(N, h)
        T = len(bits)
        I, st, t, sig, w, v = runc(ctx, m, N, h)
        rule = "compression succeeds exactly if the code fits"
        if t is None:
            ctx.need(rule, False, w, lambda: "%s: whether it fits depends on %s" % (label, D.show(v, 3)[:200]), und=True)
            return
        if T != R:
            ctx.need(rule, t == int(T < R), w, lambda: "%s: it is reported to %s" % (label, "fit" if t else "be too long"))
        if t:
            want = tobytes(bits + [0] * (R - T)) if T <= R else []
            for i in range(SLEN[N]):
                x = read(I, st, sig, i, 8)
                if i < HEAD:
                    ok = x is not UNDEF and D.eq(x, D.inbits(("old", i), 8, 8), 8) == 1
                    if not ctx.need("header and salt are left alone", ok, w, lambda: "byte %d becomes %s" % (i, D.show(x, 2))):
                        break
                elif T <= R:
                    if not same(ctx, "codes are sign, 7 low bits, unary rest, then zeros", x, want[i - HEAD], w, "%s: byte %d" % (label, i), st):
                        break
        ctx.obligations(I, NOUB, "compress_sig: no undefined behaviour")
        ctx.took(I)
        if T > R:
            return
        I, st, u, s2, w, v = rund(ctx, m, N, bits + [0] * (R - T))
        rule = "decompression accepts exactly what compression emits"
        if not ctx.need(rule, u == t, w, lambda: "%s: compression %s, decompression %s" % (label, "succeeds" if t else "fails", "of its code succeeds" if u else "of the code fails"), und=u is None):
            return
        if u:
            for i in range(N):
                x = read(I, st, s2, 4 * i, 32)
                if not same(ctx, "decompress(compress(s2)) = s2", x, coef(i, h[i]), w, "%s: coefficient %d" % (label, i), st):
                    break
        ctx.obligations(I, NOUB, "decompress_sig: no undefined behaviour")
        ctx.took(I)
    return go


def p04(ctx):
    m = module()
    ctx.assume = []
    jobs = []
    for N in (1024, 512):
        hs = list(histories(N, ctx.tier))
        jobs += [batch([(lambda label, h, N=N: both(m, N, label, h), *h) for h in hs[k::12]]) for k in range(12)]
    ctx.fork(jobs)
    ctx.minimum("compression succeeds exactly if the code fits", 200)
    ctx.minimum("decompress(compress(s2)) = s2", 80 * 1536)


# ------------------------------------------------------------------ malformed
def malformed(N, tier):
    """(label, bits, readable from the label why it must be rejected)"""
    R = room(N)
    thorough = tier == "thorough"

    def head(g, n, total, style):
        hs = [symbol(g, k) for k in spread(n, g, total, style)] if n else []
        b = []
        for i, s in enumerate(hs):
            b += code(i, s)
        return b

    def unknown(n, tag="rest"):
        return [((tag,), i) for i in range(n)]
    c = 0
    # a negative zero, the rest arbitrary
    for at in sorted({0, 1, 2, 7, 8, N // 2, N - 2, N - 1} | set(range(3, N, N // (96 if thorough else 24)))):
        c += 1
        g = Gen(c * 77 + N)
        # every phase of the bit position
        lo, hi = 9 * at, R - 9 * (N - at)
        b = head(g, at, min(hi, lo + g.r(max(1, min(2 * at, hi - lo)))), c % 4) + [1] + [0] * 7 + [1]
        tail = R - len(b)
        # unknown bits after it: they must not matter; or well-formed ones
        if c % 2:
            r = head(g, N - at - 1, 9 * (N - at - 1), 0)
            b += r + [0] * (tail - len(r))
            kind = "followed by a well-formed rest"
        else:
            b += ([0] * 9 + [1]) * (tail // 10) + [0] * (tail % 10)
            kind = "followed by anything"
        yield "negative zero at coefficient %d, %s" % (at, kind), b
    # bits set after the last code
    for left in (1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 40, 63, 64, 65, 100):
        for t in sorted({0, 1, left // 2, left - 2, left - 1} | set(range(0, left, 1 if thorough or left <= 17 else 5))):
            if 0 <= t < left:
                c += 1
                g = Gen(c * 5 + N)
                b = head(g, N, R - left, c % 5)
                yield "bit %d of %d after the last code is set" % (t, left), b + [0] * t + [1] + unknown(left - t - 1)
    # the last code does not end: coefficient `at` begins with `left` bits left, its unary part never stops
    for left in (9, 10, 11, 12, 15, 16, 17, 18, 24, 30, 72, 700):
        for at in (N - 1, N - 2, N // 2, 0 if left > 600 else N - 3):
            c += 1
            g = Gen(c * 3 + N)
            n = R - left
            if n < 9 * at:
                continue
            b = head(g, at, n if at else 0, c % 5)
            b += ([g.r(2), 1] + unknown(6, "last"))
            b += [0] * (R - len(b))
            yield "coefficient %d begins %d bits before the end and never ends" % (at, left), b
    # too few coefficients: fewer bits left than a code has
    for left in range(0, 9):
        for at in (N - 1, N - 2, 1, N // 3):
            for bitv in (0, 1):
                c += 1
                g = Gen(c * 11 + N)
                b = head(g, at, R - left, c % 5)
                yield "%d bits are left after %d coefficients" % (left, at), b + [bitv] * left
    for v in ([0], [1, 0], [0, 1], [1], [1, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1]):
        yield "the pattern %s throughout" % v, (v * R)[:R]


def reject(m, N, label, bits):
    def go(ctx):
        fresh_domains()
        assert len(bits) == room(N), (label, len(bits))
        I, st, t, s2, w, v = rund(ctx, m, N, bits)
        if label.startswith("the pattern"):
            # decided by the definition
            want = wellformed(N, bits)
        else:
            want = 0
        rule = "malformed codes are rejected"
        if ctx.need(rule, t == want, w, lambda: "%s: decompression %s" % (label, "accepts" if t else "rejects"), und=t is None) and not want:
            for i in range(N):
                x = read(I, st, s2, 4 * i, 32)
                if not ctx.need("nothing of a rejected code is left in the output", type(x) is int and x == 0 and x is not UNDEF, w, lambda: "%s: coefficient %d is %s" % (label, i, D.show(x, 2))):
                    break
        ctx.obligations(I, NOUB, "decompress_sig: no undefined behaviour")
        ctx.took(I)
    return go


def wellformed(N, b):
    at = n = 0
    while n < N:
        if at + 9 > len(b):
            return 0
        low = b[at + 1:at + 8]
        k = at + 8
        while k < len(b) and not b[k]:
            k += 1
        if k == len(b) or b[at] and not any(low) and k == at + 8:
            return 0
        at = k + 1
        n += 1
    return int(not any(b[at:]) and at < len(b))


def p05(ctx):
    m = module()
    ctx.assume = []
    jobs = []
    for N in (1024, 512):
        hs = list(malformed(N, ctx.tier))
        jobs += [batch([(lambda label, h, N=N: reject(m, N, label, h), *h) for h in hs[k::12]]) for k in range(12)]
    ctx.fork(jobs)
    ctx.minimum("malformed codes are rejected", 300)


def instance(h, n):
    """one member of a family: its unknown bits fixed"""
    g = Gen(n)
    if h and type(h[0]) is tuple and len(h[0]) == 3:
        return [s if s[2] is None else s + ((1 | 2 * g.r(128)) << s[2] & 127,) for s in h]
    pool = {}
    return [pool.setdefault(b, g.r(2)) if type(b) is tuple else b for b in h]


def batch(js):
    """js: (job maker, label, family).  Where a family is left undecided its members are looked at, one
    that breaks the property is a violation; otherwise the family stays undecided."""
    def go(ctx):
        left = 4
        for mk_, label, h in js:
            u, stop = len(ctx.und), None
            try:
                mk_(label, h)(ctx)
            except Endless:
                pass
            except Stop as e:
                stop = e
            if ctx.viol:
                return
            if stop is None and len(ctx.und) == u:
                continue
            und = ctx.und[:]
            for n in range(3):
                try:
                    mk_(label + " (an instance)", instance(h, n))(ctx)
                except (Stop, Endless):
                    pass
                if ctx.viol:
                    break
            ctx.und = und
            if ctx.viol:
                return
            if stop is not None:
                raise stop
            left -= 1
            if not left:
                return
    return go
