"""P07: verification accepts exactly the signatures of the scheme."""
import numpy as np

import tab
from chk import *
from lib import *

NS = (512, 1024)
BOUND = {512: 34034726, 1024: 70265242}
NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite", "fptoint")


class Ring:
    """polynomials over Z_q met by the program: each has N coefficients; the transforms map
    them to vectors on which the program computes pointwise"""

    def __init__(self, N):
        self.N = N
        self.role = {}          # name -> function index -> 16-bit node
        self.seen = []

    def elem(self, name, i):
        return D.atom("%s[%d]" % (name, i), 16, ulo=0, uhi=Q - 1)


def poly_at(v, N, i, names):
    """v (at index i) as a polynomial over named vectors: {monomial of names: coefficient}"""
    if type(v) is int:
        return {(): v % Q} if v % Q else {}
    if type(v) is not T:
        return None
    r = {}
    for mm, c in D.mq(v).items():
        k = []
        for z, e in mm:
            if not isinstance(z, T) or z.op != "atom" or e < 1:
                return None
            nm = str(z.args[0])
            if not nm.endswith("[%d]" % i):
                return None
            nm = nm[:-len("[%d]" % i)]
            if nm not in names:
                return None
            k += [nm] * e
        k = tuple(sorted(k))
        r[k] = (r.get(k, 0) + c) % Q
    return {k: c for k, c in r.items() if c}


class Model:
    """what the routines verification is built from are known to do (P01, P03, P08, P13)"""

    def __init__(self, m, N, smax):
        self.m, self.N = m, N
        self.bad = []           # (rule, text)
        self.und = []
        self.names = {}         # polynomial (frozenset) -> name of its value vector
        self.hashed = []
        self.vals = np.arange(-smax, smax + 1)
        self.smax = smax
        self.canon_memo = {}
        self.dec = {"pk": 1, "sig": 1}
        self.called = []

    # one-variable values that are +-s2[i] modulo q
    def canon(self, v):
        if type(v) is not T or v.w != 16 or v.op in ("fq", "atom"):
            return v
        lv = None
        ls = tab.leaves(v)
        if len(ls) == 1:
            z, = ls
            if type(z) is T and z.op == "atom" and str(z.args[0]).startswith("s2["):
                i = str(z.args[0])[3:-1]
                try:
                    r = table(v, z, self.vals, "s2", False)
                except tab.NoTable:
                    return v
                for k in (1, -1):
                    if np.array_equal(r, (k * self.vals) % Q):
                        s = D.atom("S2[%s]" % i, 16, ulo=0, uhi=Q - 1)
                        return s if k == 1 else D.fq({((s, 1),): Q - 1})
                if np.array_equal(r % Q, self.vals % Q) or np.array_equal(r % Q, -self.vals % Q):
                    return v
                return v
        if v.uhi < Q:
            p = D.mq(v)
            if p and next(iter(p)) != ((v, 1),) and all(isinstance(z, T) and z.op == "atom" for mm in p for z, _ in mm):
                if len(p) == 1:
                    (mm, c), = p.items()
                    if c == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].w == 16 and mm[0][0].uhi < Q:
                        return mm[0][0]
                return D.fq(p)
        return v

    def s2map(self, v):
        """how a value that depends on one coefficient of s2 differs from it modulo q"""
        ls = tab.leaves(v)
        z = next(iter(ls)) if len(ls) == 1 else None
        if type(z) is not T or z.op != "atom" or not str(z.args[0]).startswith("s2["):
            return None
        try:
            r = table(v, z, self.vals, "s2", False)
        except tab.NoTable:
            return None
        if np.array_equal(r % Q, self.vals % Q) or np.array_equal(r % Q, -self.vals % Q):
            return None
        k = np.nonzero(r % Q != self.vals % Q)[0][0]
        return "for %s = %d the value transformed is %d, must be %d" % (z.args[0], self.vals[k], r[k], self.vals[k] % Q)

    def vecname(self, I, st, o, what, allowed):
        """the polynomial held by an array, as a combination of named vectors"""
        ps = []
        for i in range(self.N):
            v = read(I, st, o.obj, o.off + 2 * i, 16)
            if v is UNDEF:
                self.bad.append(("%s is applied to initialised data" % what, "element %d is not written" % i))
                return None
            v = self.canon(v)
            p = poly_at(v, self.N, i, allowed)
            if p is None:
                t = self.s2map(v)
                if t is not None:
                    self.bad.append(("s2 is reduced modulo q", t))
                    return None
                self.und.append(("%s: input is understood" % what, "element %d is %s" % (i, D.show(v, 3)[:200])))
                return None
            ps.append(p)
        if any(p != ps[0] for p in ps[1:]):
            k = next(i for i, p in enumerate(ps) if p != ps[0])
            self.bad.append(("transform arguments are combined uniformly", "element %d of an array passed to %s is combined as %s, element 0 as %s" % (k, what, show(ps[k]), show(ps[0]))))
            return None
        return ps[0]

    def put(self, I, st, o, name):
        for i in range(self.N):
            I.write(st, o.obj, o.off + 2 * i, 2, D.atom("%s[%d]" % (name, i), 16, ulo=0, uhi=Q - 1))

    def ntt(self, I, st, ins, args):
        o = args[0]
        p = self.vecname(I, st, o, "ntt", self.coeffnames)
        if p is None or () in p:
            p = p or {("?%d" % I.bump(),): 1}
        # ntt is linear: values of each basis polynomial, combined
        for i in range(self.N):
            r = {}
            for k, c in p.items():
                if k == ():
                    continue
                z = D.atom("^%s[%d]" % (k[0], i), 16, ulo=0, uhi=Q - 1)
                r = D.padd(r, {((z, 1),): 1}, c)
                self.tnames.add("^%s" % k[0])
            self.store(I, st, o, i, r)
        return st, None

    def store(self, I, st, o, i, r):
        v = D.fq(r)
        if len(r) == 1:
            (mm, c), = r.items()
            if c == 1 and len(mm) == 1 and mm[0][1] == 1:
                v = mm[0][0]
        I.write(st, o.obj, o.off + 2 * i, 2, v)

    def intt(self, I, st, ins, args):
        o = args[0]
        p = self.vecname(I, st, o, "intt", self.tnames)
        if p is None:
            p = {("^?%d" % I.bump(),): 1}
        if () in p:
            self.und.append(("intt: input is understood", "a constant vector is added"))
            p.pop(())
        for i in range(self.N):
            r = {}
            for k, c in p.items():
                nm = "*".join(x[1:] for x in k)
                if nm not in self.coeffnames:
                    self.coeffnames.add(nm)
                z = D.atom("%s[%d]" % (nm, i), 16, ulo=0, uhi=Q - 1)
                r = D.padd(r, {((z, 1),): 1}, c)
            self.store(I, st, o, i, r)
        return st, None

    coeffnames = None

    def decode_pkey(self, I, st, ins, args):
        self.called.append(("pk", args[0]))
        if self.dec["pk"]:
            for i in range(self.N):
                I.write(st, args[1].obj, args[1].off + 2 * i, 2, D.atom("h[%d]" % i, 16, ulo=0, uhi=Q - 1))
        return st, self.dec["pk"]

    def decode_sig(self, I, st, ins, args):
        self.called.append(("sig", args[0]))
        if self.dec["sig"]:
            for i in range(40):
                I.write(st, args[1].obj, args[1].off + i, 1, D.inbits(("salt", i), 8, 8))
            for i in range(self.N):
                I.write(st, args[2].obj, args[2].off + 4 * i, 4, D.atom("s2[%d]" % i, 32, slo=-self.smax, shi=self.smax))
        return st, self.dec["sig"]

    def hash_to_point(self, I, st, ins, args):
        salt, slen, msg, mlen, c = args[:5]
        s = [read(I, st, salt.obj, salt.off + i, 8) for i in range(slen)] if type(slen) is int and type(salt) is Ptr else None
        self.hashed.append((s, slen, msg, mlen))
        for i in range(self.N):
            I.write(st, c.obj, c.off + 2 * i, 2, D.atom("c[%d]" % i, 16, ulo=0, uhi=Q - 1))
        return st, None


def show(p):
    return " + ".join("%s%s" % ("" if c == 1 else "-" if c == Q - 1 else "%d*" % c, "*".join(k)) for k, c in sorted(p.items())) or "0"


def install(I, m, M):
    N, lg = M.N, M.N.bit_length() - 1
    M.coeffnames = {"c", "h", "S2"}
    M.tnames = set()
    for pat, h in ((r"^\w+ decoding::decode_pkey<%dul>" % N, M.decode_pkey), (r"^\w+ decoding::decode_sig<%dul>" % N, M.decode_sig),
                   (r"^void hashing::hash_to_point<%dul>" % N, M.hash_to_point), (r"^void ntt::ntt<%dul>" % lg, M.ntt), (r"^void ntt::intt<%dul>" % lg, M.intt)):
        I.icp[func(m, pat).name] = h
    I.canon = M.canon


def conjuncts(r):
    """r as a conjunction of comparisons"""
    if type(r) is T and r.op == "band":
        return [x for z in r.args[0] for x in conjuncts(z)]
    if type(r) is T and r.op == "ite":
        c, a, b = r.args
        if b == 0 and type(b) is int:
            return conjuncts(c) + conjuncts(a)
        if a == 0 and type(a) is int:
            return conjuncts(D.bnot(c)) + conjuncts(b)
    if type(r) is T and r.op in ("zext", "trunc"):
        return conjuncts(r.args[0])
    if type(r) is int:
        return [] if r & 1 else [0]
    return [r]


def comparison(x):
    """x == (sum <= bound): returns (sum node, bound, signed) or None"""
    neg = False
    while type(x) is T and x.op == "not":
        neg = not neg
        x = x.args[0]
    if type(x) is not T or x.op not in ("slt", "ult"):
        return None
    a, b = x.args
    w = max(z.w for z in (a, b) if type(z) is T)
    sg = x.op == "slt"
    if type(b) is int and not neg:
        return a, (D.sgn(b, w) if sg else b) - 1, sg, w
    if type(a) is int and neg:
        return b, D.sgn(a, w) if sg else a, sg, w
    return None


def verify_one(ctx, m, N):
    smax = Q - 1
    f = ptr_target(m, "fl_verify_%d" % N)
    w = "%s [N=%d]" % (fwhere(None, func(m, r"^\w+ verification::verify<%dul, " % N), m), N)
    for pk, sg in ((0, 1), (0, 0), (1, 0), (1, 1)):
        fresh_domains()
        I = interp(m)
        M = Model(m, N, smax)
        M.dec = {"pk": pk, "sig": sg}
        install(I, m, M)
        mlen = D.atom("mlen", 64)
        pkb, msg, sig = bytes_in("pkey", 14 * N // 8 + 1), Obj("msg", mlen, "cinput", None, 1), bytes_in("sig", {512: 666, 1024: 1280}[N])
        st, r = I.call(f, [P(pkb), P(msg), mlen, P(sig)], State())
        ctx.obligations(I, NOUB, "verify: no undefined behaviour")
        ctx.took(I)
        for k, o, nm in (("pk", pkb, "the public key"), ("sig", sig, "the signature")):
            cs = [p for kk, p in M.called if kk == k]
            ctx.need("verify decodes what it was given", all(p == P(o) for p in cs), w, lambda: "%s is decoded from %r" % (nm, cs))
        if not (pk and sg):
            ctx.need("verify rejects what does not decode", any(type(x) is int and x == 0 for x in conjuncts(r)), w,
                     lambda: "the result is %s although %s" % (D.show(r, 2)[:200], "the public key does not decode" if not pk else "the signature does not decode"))
            continue
        ctx.need("verify hashes salt, then message", len(M.hashed) >= 1, w, "hash_to_point is not called", und=True)
        for s, slen, pm, ml in M.hashed:
            ctx.need("verify hashes salt, then message", slen == 40 and s is not None and all(x == D.inbits(("salt", i), 8, 8) for i, x in enumerate(s)), w,
                     lambda: "the salt hashed is %s (%s bytes), must be the 40 decoded bytes" % ([D.show(x, 1) for x in s or []][:4], slen))
            ctx.need("verify hashes salt, then message", pm == P(msg) and ml is mlen, w, lambda: "the message hashed is %r, length %s" % (pm, D.show(ml, 2)))
        for rule, t in M.bad:
            ctx.need(rule, False, w, t)
        for rule, t in M.und:
            ctx.need(rule, False, w, t, und=True)
        accept(ctx, M, r, N, w)


_SH = {}


def shape(t, z):
    """t up to the name of its only leaf z"""
    if type(t) is not T:
        return t
    if t is z:
        return "leaf"
    r = _SH.get(t)
    if r is None:
        def sub(x):
            if type(x) is T:
                return shape(x, z)
            if type(x) is tuple:
                return tuple(sub(y) for y in x)
            if type(x) is frozenset:
                return frozenset(sub(y) for y in x)
            return x
        if t.op == "bits":
            a = tuple(b if b < 2 else ("b", shape(D.LITN[(b >> 1) - 1][0], z) if isinstance(D.LITN[(b >> 1) - 1][0], T) else "leaf", D.LITN[(b >> 1) - 1][1], b & 1) for b in t.args)
        else:
            a = sub(t.args)
        r = _SH[t] = (t.op, t.w, a, t.slo < 0)
    return r


_TB = {}


def table(t, z, dom, key, sg):
    """values of t for all values of its only leaf"""
    k = (shape(t, z), key, sg)
    r = _TB.get(k)
    if r is None:
        x = tab.vec(t, {z: dom})
        r = _TB[k] = tab.signed(x, t.w) if sg else np.asarray(x).astype(np.int64)
    return r


def leafkey(M, N, z):
    """what a leaf of the norm is: ("s2", i), ("s1", i), ("poly", i, text) or None"""
    if type(z) is not T:
        return None
    if z.op == "atom" and str(z.args[0]).startswith("s2["):
        return ("s2", int(str(z.args[0])[3:-1]))
    i = None
    for mono in D.mq(z):
        for a, e in mono:
            i = str(a.args[0]).rsplit("[", 1)[1][:-1] if isinstance(a, T) and a.op == "atom" and "[" in str(a.args[0]) else None
    p = poly_at(z, N, int(i), M.coeffnames) if i is not None and i.isdigit() else None
    if p is None:
        return None
    h = "S2*h" if "S2*h" in M.coeffnames else "h*S2"
    if p in ({("c",): 1, (h,): Q - 1}, {("c",): Q - 1, (h,): 1}):
        return ("s1", int(i))
    return ("poly", int(i), show(p))


def accept(ctx, M, r, N, w):
    """r must be  sum s2[i]^2 + sum centred(c - s2*h)[i]^2 <= bound"""
    rule = "accepts iff |(s1, s2)|^2 <= bound"
    if M.und or M.bad:
        return
    full = {("s1", i) for i in range(N)} | {("s2", i) for i in range(N)}
    cs = conjuncts(r)
    cent = lambda v: np.where(v > Q // 2, v - Q, v)
    sv, qv = M.vals, np.arange(Q)
    sq = {"s2": sv * sv, "s1": cent(qv) ** 2}
    dom = {"s2": sv, "s1": qv}
    summ = {}
    _SH.clear()
    best, found = set(), False
    for x in cs:
        ls = tab.leaves(x)
        if len(ls) == 1:
            # a condition on one coefficient must follow from the norm being within bounds
            z, = ls
            key = leafkey(M, N, z)
            try:
                if key is not None and key[0] in dom:
                    v = table(x, z, dom[key[0]], key[0], False)
                    bad = np.nonzero((v == 0) & (sq[key[0]] <= BOUND[N]))[0]
                    ctx.need("no signature within the bound is rejected", not len(bad), w, lambda: "rejected when coefficient %d of %s is %d" % (key[1], key[0], cent(dom[key[0]])[bad[0]] if key[0] == "s1" else dom["s2"][bad[0]]))
                    continue
            except tab.NoTable:
                pass
        cmp_ = comparison(x)
        if cmp_ is None:
            ctx.need(rule, False, w, lambda: "the result is %s" % D.show(x, 3)[:300], und=True)
            return
        S, bound, signed, wd = cmp_
        c0, bs = D.lin_of(S, wd)
        c0 = D.sgn(c0, wd)
        terms = {}
        for b, k in bs:
            ls = tab.leaves(b)
            if len(ls) != 1:
                ctx.need(rule, False, w, lambda: "a term of the norm is %s" % D.show(b, 3)[:300], und=True)
                return
            z, = ls
            terms.setdefault(z, []).append((b, D.sgn(k, wd)))
        got = set()
        tot = 0
        for z, l in terms.items():
            key = leafkey(M, N, z)
            if key is None:
                ctx.need(rule, False, w, lambda: "the norm depends on %s" % D.show(z, 3)[:300], und=True)
                return
            if not ctx.need("s1 = c - s2*h", key[0] != "poly", w, lambda: "coefficient %d entering the norm is that of %s, must be c - s2*h" % key[1:]):
                return
            got.add(key)
            try:
                mk = tuple((shape(b, z), k) for b, k in l), key[0]
                if mk not in summ:
                    v = sum(table(b, z, dom[key[0]], key[0], b.slo < 0) * k for b, k in l)
                    summ[mk] = v, np.nonzero(v != sq[key[0]])[0]
                v, bad = summ[mk]
            except tab.NoTable as e:
                ctx.need(rule, False, w, "a term of the norm cannot be tabulated: %s" % e, und=True)
                return
            ctx.need("terms of the norm are squares of centred coefficients", not len(bad), w,
                     lambda: "for coefficient %d of %s equal to %d the norm grows by %d, must be %d" % (key[1], key[0], sv[bad[0]] if key[0] == "s2" else cent(qv)[bad[0]], v[bad[0]], sq[key[0]][bad[0]]))
            tot += int(sq[key[0]].max())
        ctx.need("the sum of squares does not wrap", max(0, tot + c0) < 1 << (wd - (1 if signed else 0)), w, lambda: "the norm can reach %d in a %d-bit accumulator" % (tot, wd))
        if got == full:
            found = True
            ctx.need("the bound is that of the parameter set", bound - c0 == BOUND[N], w, "accepts up to %d, must be %d" % (bound - c0, BOUND[N]))
        else:
            ctx.need("no signature within the bound is rejected", bound - c0 >= BOUND[N], w, lambda: "rejected when a part of the squared norm (%d of %d terms) exceeds %d" % (len(got), 2 * N, bound - c0))
        if len(got) > len(best):
            best = got
    miss = sorted(full - best)
    ctx.need(rule, found, w, lambda: "every signature that decodes is accepted" if not cs else "coefficient %d of %s is not part of the norm" % (miss[0][1], miss[0][0]))


class Wide(Model):
    """s2 over all the values decoding can produce; transforms of canonical vectors are canonical"""

    def ntt(self, I, st, ins, args):
        o = args[0]
        vs = [read(I, st, o.obj, o.off + 2 * i, 16) for i in range(self.N)]
        can = all(type(v) is int and v < Q or type(v) is T and v.uhi < Q for v in vs)
        n = I.bump()
        for i in range(self.N):
            I.write(st, o.obj, o.off + 2 * i, 2, D.atom("t%d[%d]" % (n, i), 16, ulo=0, uhi=Q - 1 if can else 65535))
        return st, None

    intt = ntt

    def canon(self, v):
        # a canonical value may be any canonical value
        if type(v) is T and v.w == 16 and v.op != "atom" and v.uhi < Q:
            r = self.canon_memo.get(v)
            if r is None:
                r = self.canon_memo[v] = D.atom("w%d" % len(self.canon_memo), 16, ulo=v.ulo, uhi=v.uhi)
            return r
        return v


def wide_one(ctx, m, N):
    """no signature with a coefficient beyond the modulus is accepted, and nothing overflows"""
    f = ptr_target(m, "fl_verify_%d" % N)
    w = "%s [N=%d]" % (fwhere(None, func(m, r"^\w+ verification::verify<%dul, " % N), m), N)
    slen = {512: 666, 1024: 1280}[N]
    smax = 127 + 128 * (8 * slen - 336)
    fresh_domains()
    I = interp(m)
    M = Wide(m, N, smax)
    install(I, m, M)
    mlen = D.atom("mlen", 64)
    pkb, msg, sig = bytes_in("pkey", 14 * N // 8 + 1), Obj("msg", mlen, "cinput", None, 1), bytes_in("sig", slen)
    st, r = I.call(f, [P(pkb), P(msg), mlen, P(sig)], State())
    ctx.obligations(I, NOUB, "verify: no undefined behaviour")
    ctx.took(I)
    rule = "coefficients beyond the modulus are rejected"
    _SH.clear()
    cs = conjuncts(r)
    ok, summ, near, clear = set(), {}, {}, True
    why = "no comparison bounds it"
    for x in cs:
        ls = tab.leaves(x)
        z = next(iter(ls)) if len(ls) == 1 else None
        if z is not None and type(z) is T and z.op == "atom" and str(z.args[0]).startswith("s2["):
            try:
                v = table(x, z, M.vals, "w", False)
                if not np.any((v != 0) & (np.abs(M.vals) >= Q)):
                    ok.add(int(str(z.args[0])[3:-1]))
                elif np.any((v == 0) & (np.abs(M.vals) >= Q)):
                    clear = False
            except tab.NoTable:
                clear = False
            continue
        cmp_ = comparison(x)
        if cmp_ is None:
            clear = False
            continue
        S, bound, signed, wd = cmp_
        c0, bs = D.lin_of(S, wd)
        terms = {}
        for b, k in bs:
            ls = tab.leaves(b)
            s2 = [z for z in ls if type(z) is T and z.op == "atom" and str(z.args[0]).startswith("s2[")]
            z = s2[0] if len(ls) == 1 and s2 else None
            terms.setdefault(z, []).append((b, D.sgn(k, wd)))
        lo = hi = D.sgn(c0, wd)
        try:
            for b, k in terms.get(None, []):
                a, e = (b.slo, b.shi) if b.slo < 0 else (b.ulo, b.uhi)
                if a < 0 and len(tab.leaves(b)) == 1:
                    zz, = tab.leaves(b)
                    if type(zz) is T and zz.uhi < 1 << 16:
                        t = table(b, zz, np.arange(zz.uhi + 1), ("w", zz.uhi), True)
                        a, e = int(t.min()), int(t.max())
                lo, hi = lo + min(a * k, e * k), hi + max(a * k, e * k)
            per = {}
            for z, l in terms.items():
                if z is None:
                    continue
                mk = tuple((shape(b, z), k) for b, k in l)
                if mk not in summ:
                    v = sum(table(b, z, M.vals, "w", b.slo < 0) * k for b, k in l)
                    summ[mk] = int(v.min()), int(v.max()), int(v[np.abs(M.vals) >= Q].min())
                per[z] = summ[mk]
                lo, hi = lo + summ[mk][0], hi + summ[mk][1]
            cap = 1 << (wd - (1 if signed else 0))
            fits = -(cap if signed else 0) <= lo and hi < cap
            for z, v in per.items():
                if fits and lo - v[0] + v[2] > bound:
                    ok.add(int(str(z.args[0])[3:-1]))
                elif v[2] <= bound:
                    near[int(str(z.args[0])[3:-1])] = v[2]
                elif not fits:
                    why = "the squared norm ranges over [%d, %d] in a %d-bit accumulator" % (lo, hi, wd)
        except tab.NoTable as e:
            why = "a term cannot be tabulated: %s" % e
    for i in range(N):
        if i in near and i not in ok:
            why = "its term of the squared norm can be as small as %d" % near[i]
        ctx.need(rule, i in ok, w, "|s2[%d]| >= q may be accepted: %s" % (i, why), und=not (clear and i in near))


def p07(ctx):
    m = module()
    ctx.assume = ["decoding, hashing to a point and the NTT behave as P01, P03, P08 and P13 establish"]
    ctx.fork([lambda c, N=N, g=g: g(c, m, N) for N in NS for g in (verify_one, wide_one)])
    if not ctx.und:
        ctx.minimum("terms of the norm are squares of centred coefficients", 2 * 1536)
