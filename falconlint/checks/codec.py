"""Key codecs: P01 (public key), P02 (secret key), P03 (decoders fail closed)."""
from chk import *
from lib import *
import tab

NS = (512, 1024)


def lens(mod):
    g = mod.globals.get("@fl_lens")
    if g is None:
        raise Anchor("no fl_lens")
    v = [x[1] for x in g.init[1]]
    return {"pk": dict(zip(NS, v[0:2])), "sk": dict(zip(NS, v[2:4])), "sig": dict(zip(NS, v[4:6]))}


def truth(I, st, v):
    """1 / 0 / None"""
    if type(v) is int:
        return v & 1
    if type(v) is T:
        return I.decide(st, v)
    return None


def witness(s, v, val, first):
    """are there inputs on the path for which v has the value val?  (first: first byte of
    the input, of which every value is tried)"""
    f = {}
    for c in list(s.pc):
        literals(c, True, f)
    literals(v, bool(val), f)
    for k in range(4):
        for b in range(256):
            g = {(first, i): b >> i & 1 for i in range(8)}
            if any(f.get(x, y) != y for x, y in g.items()):
                continue
            FORCE.update(f)
            FORCE.update(g)
            try:
                memo = {}
                if ev(v, k, memo) == val and all(ev(c, k, memo) for c in s.pc):
                    return True
            except (Noval, RecursionError):
                return False
            finally:
                FORCE.clear()
    return False


def must(ctx, I, s, rule, v, want, where, what, first=None):
    t = truth(I, s, v)
    if t is None and isinstance(v, T) and first is not None and witness(s, v, 1 - want, first):
        t = 1 - want
    ctx.need(rule, t == want, where, lambda: "%s is %s" % (what, D.show(v, 3)[:200] if isinstance(v, (int, T)) else v),
             und=t is None and isinstance(v, (int, T)) and differ(v, want, s.pc) is None)


def tabled(s, v, w, signed):
    """exact range of v over the values its (few) input bits can take on the path, or None"""
    lv = tab.leaves(v)
    if not lv or len(lv) > 3 or any(isinstance(x, T) for x in lv):
        return None
    k = {}
    for x in [v] + list(s.pc):
        if isinstance(x, T):
            bitsof(x, lv, k)
    if sum(k.values()) > 20:
        return None
    import numpy as np
    n = sum(k.values())
    allv = np.arange(1 << n, dtype=np.uint64)
    env, at = {}, 0
    for x in lv:
        env[x] = (allv >> np.uint64(at)) & np.uint64((1 << k[x]) - 1)
        at += k[x]
    memo = {}
    keep = np.ones(1 << n, dtype=bool)
    try:
        for c in s.pc:
            for f in (c.args[0] if c.op == "band" else (c,)):
                if tab.leaves(f) <= lv:
                    keep &= np.asarray(tab.vec(f, env, memo) != 0)
        r = np.broadcast_to(tab.vec(v, env, memo), keep.shape)[keep]
    except tab.NoTable:
        return None
    if signed:
        r = tab.signed(r, w)
    return (int(r.min()), int(r.max())) if len(r) else None


def outside(s, v, w, lo, hi, signed):
    """is there an input on the path for which v is not in [lo, hi]?"""
    if type(v) is not T:
        return True
    bad = D.bnot(D.ult(D.add(v, -lo & ((1 << w) - 1), w), hi - lo + 1, w))
    if type(bad) is int:
        return bool(bad)
    base = {}
    for c in list(s.pc):
        literals(c, True, base)
    tries = [{}]
    lv = tab.leaves(v)
    if lv and len(lv) <= 3 and not any(isinstance(x, T) for x in lv):
        import numpy as np
        k = {}
        bitsof(v, lv, k)
        n = sum(k.values())
        if 0 < n <= 20:
            allv = np.arange(1 << n, dtype=np.uint64)
            env, at = {}, 0
            for x in lv:
                env[x] = (allv >> np.uint64(at)) & np.uint64((1 << k.get(x, 0)) - 1)
                at += k.get(x, 0)
            try:
                hit = np.flatnonzero(np.broadcast_to(tab.vec(bad, env, {}), allv.shape))
                pick = [hit[int(len(hit) * j / 64)] for j in range(64)] if len(hit) > 64 else list(hit)
                tries += [{(x, b): int(env[x][j]) >> b & 1 for x in lv for b in range(k.get(x, 0))} for j in pick]
            except tab.NoTable:
                pass
    for t in tries:
        if any(base.get(x, y) != y for x, y in t.items()):
            continue
        for trial in (range(3) if t else range(12)):
            FORCE.update(base)
            FORCE.update(t)
            try:
                memo = {}
                if ev(bad, trial, memo) and all(ev(c, trial, memo) for c in s.pc):
                    return True
            except (Noval, RecursionError):
                return False
            finally:
                FORCE.clear()
    return False


class Shown:
    """whether values outside a range are really reached, tried for the first few"""

    def __init__(self):
        self.n, self.any = 0, False

    def __call__(self, s, v, w, lo, hi, signed):
        if self.n < 24:
            self.n += 1
            r = outside(s, v, w, lo, hi, signed)
            self.any |= r
            return r
        return self.any


def bitsof(t, lv, k):
    """number of bits of each source in lv that t mentions"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
        elif type(x) is T and x not in seen:
            seen.add(x)
            if x.op == "bits":
                for b in x.args:
                    if b > 1:
                        src, i = D.LITN[(b >> 1) - 1]
                        if src in lv:
                            k[src] = max(k.get(src, 0), i + 1)
                        elif isinstance(src, T):
                            st.append(src)
            else:
                st.extend(x.args)


def refute_under(I, st, cond, v, want):
    """is v == want whenever cond holds (on top of st)?  True / None"""
    s = st.fork()
    if not I.assume(s, cond, True):
        return True
    return truth(I, s, v) == want


# ------------------------------------------------------------------- P01
def p01(ctx):
    m = module()
    L = lens(m)["pk"]
    for N in NS:
        fresh_domains()
        I = interp(m)
        enc = func(m, r"^\w+ encoding::encode_pkey<%dul>" % N)
        dec = func(m, r"^\w+ decoding::decode_pkey<%dul>" % N)
        we, wd = fwhere(I, enc), fwhere(I, dec)
        ctx.need("length", L[N] == 1 + 14 * N // 8, we, "advertised length %d" % L[N])
        # decode . encode = identity on every polynomial over Z_q
        st = State()
        h = words_in("h", N, 16, bits=14, signed=False)
        for i in range(N):
            I.assume(st, D.ult(read(I, st, h, 2 * i, 16), Q, 16), True)
        pk = out("pkey", L[N])
        st, _ = I.call(enc, [P(h), P(pk)], st)
        same(ctx, "header byte", read(I, st, pk, 0, 8), N.bit_length() - 1, we, "first byte")
        for i in range(L[N]):
            ctx.need("every byte written", read(I, st, pk, i, 8) is not UNDEF, we, "byte %d of the key is not written" % i)
        h2 = out("h2", 2 * N)
        st, ok = I.call(dec, [P(pk), P(h2)], st)
        t = truth(I, st, ok)
        ctx.need("own encoding is accepted", t == 1, wd, lambda: "decoding an encoded key returns %s" % D.show(ok, 3)[:300],
                 und=t is None and differ(ok, 1, st.pc) is None)
        for i in range(N):
            same(ctx, "decode(encode(h)) = h", read(I, st, h2, 2 * i, 16), read(I, st, h, 2 * i, 16), wd, "coefficient %d" % i, st)
        ctx.obligations(I, ("bounds", "uninit", "constwrite", "inputwrite"))
        ctx.took(I)
        # encode . decode = identity on every accepted byte string
        I = interp(m)
        st = State()
        pk = bytes_in("pk", L[N])
        h = out("h", 2 * N)
        st, ok = I.call(dec, [P(pk), P(h)], st)
        if not I.assume(st, ok if type(ok) is T else ok & 1, True):
            ctx.need("some key is accepted", False, wd, "no byte string is accepted")
            continue
        shown = Shown()
        for i in range(N):
            v = read(I, st, h, 2 * i, 16)
            r = I.rng(st, v, 16)[0]
            ctx.need("decoded coefficient is canonical", r[1] < Q, wd, lambda: "coefficient %d can be as large as %d" % (i, r[1]),
                     und=r[1] >= Q and not shown(st, I.resolve(st, v), 16, 0, Q - 1, False))
        pk2 = out("pk2", L[N])
        st, _ = I.call(enc, [P(h), P(pk2)], st)
        for i in range(L[N]):
            x, y = read(I, st, pk2, i, 8), read(I, st, pk, i, 8)
            if i == 0 and type(y) is T:
                r = I.rng(st, y, 8)[0]
                y = r[0] if r[0] == r[1] else y
            same(ctx, "encode(decode(bytes)) = bytes", I.resolve(st, x), y, we, "byte %d" % i, st)
        ctx.took(I)
    ctx.minimum("decode(encode(h)) = h", 1536)



# ------------------------------------------------------------------- P02
FB = {512: 6, 1024: 5}


def p02(ctx):
    m = module()
    L = lens(m)["sk"]
    for N in NS:
        fresh_domains()
        b = FB[N]
        enc = func(m, r"^\w+ encoding::encode_skey<%dul>" % N)
        dec = func(m, r"^\w+ decoding::decode_skey<%dul>" % N)
        we, wd = fwhere(None, enc, m), fwhere(None, dec, m)
        ctx.need("length", L[N] == 1 + 2 * b * N // 8 + N, we, "advertised length %d" % L[N])
        I = interp(m)
        st = State()
        src = [words_in(nm, N, 32, bits=k, signed=True) for nm, k in (("f", b), ("g", b), ("F", 8))]
        for o, k in zip(src, (b, b, 8)):
            for i in range(N):
                I.assume(st, D.eq(read(I, st, o, 4 * i, 32), (-(1 << (k - 1))) & 0xffffffff, 32), False)
        sk = out("skey", L[N])
        st, _ = I.call(enc, [P(o) for o in src] + [P(sk)], st)
        same(ctx, "header byte", read(I, st, sk, 0, 8), 0x50 | (N.bit_length() - 1), we, "first byte")
        for i in range(L[N]):
            ctx.need("every byte written", read(I, st, sk, i, 8) is not UNDEF, we, "byte %d of the key is not written" % i)
        dst = [out(nm, 4 * N) for nm in ("f2", "g2", "F2")]
        st, ok = I.call(dec, [P(sk)] + [P(o) for o in dst], st)
        t = truth(I, st, ok)
        ctx.need("own encoding is accepted", t == 1, wd, lambda: "decoding an encoded key returns %s" % D.show(ok, 3)[:300],
                 und=t is None and differ(ok, 1, st.pc) is None)
        for a, o, nm in zip(src, dst, "fgF"):
            for i in range(N):
                same(ctx, "decode(encode(f,g,F)) = f,g,F", I.resolve(st, read(I, st, o, 4 * i, 32)), read(I, st, a, 4 * i, 32), wd, "%s[%d]" % (nm, i), st)
        ctx.obligations(I, ("bounds", "uninit", "constwrite", "inputwrite", "overflow"))
        ctx.took(I)
        I = interp(m)
        st = State()
        sk = bytes_in("sk", L[N])
        dst = [out(nm, 4 * N) for nm in ("f2", "g2", "F2")]
        st, ok = I.call(dec, [P(sk)] + [P(o) for o in dst], st)
        if not I.assume(st, ok if type(ok) is T else ok & 1, True):
            ctx.need("some key is accepted", False, wd, "no byte string is accepted")
            continue
        shown = Shown()
        for o, nm, k in zip(dst, "fgF", (b, b, 8)):
            for i in range(N):
                v = read(I, st, o, 4 * i, 32)
                r = I.rng(st, v, 32)[1]
                B = (1 << (k - 1)) - 1
                fits = -B - 1 <= r[0] and r[1] <= B
                ctx.need("decoded coefficient fits the encoding", fits, wd, lambda: "%s[%d] can be in %s" % (nm, i, r),
                         und=not fits and not shown(st, I.resolve(st, v), 32, -B - 1, B, True))
        sk2 = out("sk2", L[N])
        st, _ = I.call(enc, [P(o) for o in dst] + [P(sk2)], st)
        for i in range(L[N]):
            x, y = read(I, st, sk2, i, 8), read(I, st, sk, i, 8)
            if i == 0 and type(y) is T:
                r = I.rng(st, y, 8)[0]
                y = r[0] if r[0] == r[1] else y
            same(ctx, "encode(decode(bytes)) = bytes", I.resolve(st, x), y, we, "byte %d" % i, st)
        ctx.took(I)
    ctx.minimum("decode(encode(f,g,F)) = f,g,F", 4608)


# ------------------------------------------------------------------- P03
def p03(ctx):
    m = module()
    LL = lens(m)
    for N in NS:
        fresh_domains()
        lg = N.bit_length() - 1
        # public key ---------------------------------------------------
        dec = func(m, r"^\w+ decoding::decode_pkey<%dul>" % N)
        wd = fwhere(None, dec, m)
        I = interp(m)
        pk = bytes_in("pk", LL["pk"][N])
        h = words_in("old h", N, 16, kind="input")
        st, ok = I.call(dec, [P(pk), P(h)], State())
        closed(ctx, I, st, ok, wd, pk, lg, [(h, 16, N, "h")], lambda I, s: all_in(ctx, I, s, h, 16, N, 0, Q - 1, wd, "h"))
        ctx.took(I)
        # secret key ---------------------------------------------------
        dec = func(m, r"^\w+ decoding::decode_skey<%dul>" % N)
        wd = fwhere(None, dec, m)
        I = interp(m)
        sk = bytes_in("sk", LL["sk"][N])
        os_ = [words_in("old " + nm, N, 32, kind="input") for nm in ("f", "g", "F")]
        st, ok = I.call(dec, [P(sk)] + [P(o) for o in os_], State())

        def ranges(I, s):
            for o, nm, k in zip(os_, "fgF", (FB[N], FB[N], 8)):
                all_in(ctx, I, s, o, 32, N, -(1 << (k - 1)) + 1, (1 << (k - 1)) - 1, wd, nm, True)
        closed(ctx, I, st, ok, wd, sk, 0x50 | lg, [(o, 32, N, nm) for o, nm in zip(os_, "fgF")], ranges)
        ctx.took(I)
        # signature ----------------------------------------------------
        dec = func(m, r"^\w+ decoding::decode_sig<%dul>" % N)
        wd = fwhere(None, dec, m)
        I = interp(m)
        dz = func(m, r"^\w+ decoding::decompress_sig<%dul" % N)
        got = []

        def inner(I, st, ins, args):
            got.append(args)
            FREE.add("decompressed")
            return st, D.fresh("decompressed", 1)
        I.icp[dz.name] = inner
        sg = bytes_in("sig", LL["sig"][N])
        salt, s2 = out("salt", 40), out("s2", 4 * N)
        st, ok = I.call(dec, [P(sg), P(salt), P(s2)], State())
        s = st.fork()
        if I.assume(s, D.eq(read(I, st, sg, 0, 8), 0x30 | lg, 8), False):
            must(ctx, I, s, "wrong header is rejected", ok, 0, wd, "the result with another signature header", ("sig", 0))
        ctx.need("signature body is decompressed", len(got) >= 1 and got[0][0] == Ptr(sg, 0) and got[0][1] == Ptr(s2, 0), wd, "decompression of something else")
        s = st.fork()
        a = [x for x in D.TAB.values() if x.op == "atom" and str(x.args[0]).startswith("decompressed~")]
        for x in a:
            s = st.fork()
            I.assume(s, x, False)
            must(ctx, I, s, "failed decompression is reported", ok, 0, wd, "the result when decompression fails")
        s = st.fork()
        if I.assume(s, ok, True):
            for i in range(40):
                same(ctx, "salt is bytes 1..40", I.resolve(s, read(I, s, salt, i, 8)), read(I, s, sg, 1 + i, 8), wd, "salt byte %d" % i, s)
        else:
            ctx.need("some signature is accepted", False, wd, "no signature is accepted")
        ctx.took(I)
    ctx.minimum("a rejected key leaves only zeros", 2 * 512 * 4)


def all_in(ctx, I, s, o, w, N, lo, hi, wd, nm, signed=False):
    shown = Shown()
    for i in range(N):
        v = read(I, s, o, w // 8 * i, w)
        r = I.rng(s, v, w)[1 if signed else 0]
        ok = lo <= r[0] and r[1] <= hi
        if not ok and type(I.resolve(s, v)) is T:
            # excluded single values are carried as path conditions
            vv = I.resolve(s, v)
            ok = all(I.decide(s, D.eq(vv, x & ((1 << w) - 1), w)) == 0 for x in list(range(r[0], lo))[:4] + list(range(hi + 1, r[1] + 1))[:4]) \
                and r[0] >= lo - 4 and r[1] <= hi + 4
        und = False
        if not ok and isinstance(v, T):
            t = tabled(s, I.resolve(s, v), w, signed)
            if t is not None:
                r, ok = t, lo <= t[0] and t[1] <= hi
            und = not ok and not shown(s, I.resolve(s, v), w, lo, hi, signed)
        ctx.need("an accepted key has only valid coefficients", ok, wd, lambda: "%s[%d] can be in %s" % (nm, i, r), und=und)


def closed(ctx, I, st, ok, wd, src, header, outs, ranges):
    s = st.fork()
    hb = read(I, st, src, 0, 8)
    if I.assume(s, D.eq(hb, header, 8), False):
        must(ctx, I, s, "wrong header is rejected", ok, 0, wd, "with another first byte, the result", (src.name, 0))
    s = st.fork()
    if I.assume(s, ok, True):
        ranges(I, s)
    else:
        ctx.need("some key is accepted", False, wd, "no byte string is accepted")
    s = st.fork()
    if not I.assume(s, ok, False):
        ctx.need("some key is rejected", False, wd, "every byte string is accepted")
        return
    for o, w, n, nm in outs:
        for i in range(n):
            v = I.resolve(s, read(I, s, o, w // 8 * i, w))
            same(ctx, "a rejected key leaves only zeros", v, 0, wd, "%s[%d] after rejection" % (nm, i), s)
