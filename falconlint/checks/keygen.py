"""P14: keys pass every test key generation owes; P20: the public key belongs to the secret one."""
import re

import numpy as np

import bigint as BG
import rex
import tab
from chk import *
from lib import *
from checks import signing as SI
from checks import verify as VE
from checks.ntru import SOLVE, inst

NOUB = SI.NOUB
FGB = {512: 31, 1024: 15}
FB = 127
GS = 1.17 * 1.17 * Q
SIG = 1.43300980528773


class Done(Exception):
    pass


def leafname(z):
    """(kind, number, index) of a leaf that stands for a coefficient"""
    if type(z) is not T:
        return None
    if z.op == "atom":
        s = str(z.args[0])
    elif z.op == "fromreal":
        a = RL.single(z.args[0].r)
        s = str(a.args[0]) if a is not None and a.kind == "in" else ""
    else:
        return None
    k = re.match(r"([pntFG]+)(\d+)\[(\d+)\]$", s)
    return (k.group(1), int(k.group(2)), int(k.group(3))) if k else None


PV = np.concatenate([np.arange(-300, 301), [-(1 << 30) + 1, (1 << 30) - 1, 65536, -65536, 12289, -12289, 6144, -6145]])
NV = np.arange(Q)


class Model:
    def __init__(self, ctx, m, N, hist, w):
        self.ctx, self.m, self.N, self.w, self.hist = ctx, m, N, w, hist
        self.polys = 0
        self.inv = []           # polynomial number per transform
        self.gs = []            # (f, g) per norm
        self.solved = []
        self.facts = {}         # leaf -> list of (term, value)
        self.gsfacts = []
        self.odd = []
        self.rng = None

    def need(self, rule, ok, msg, und=False):
        return self.ctx.need(rule, ok, self.w, msg, und)

    # attempts: outcome and place of the failure
    def attempt(self, k):
        if k >= len(self.hist) + 3:
            self.need("a pair that passes every test is taken", False, "after %s key generation goes on" % self.story())
            raise Done()
        return self.hist[k] if k < len(self.hist) else ("A", 0)

    def story(self):
        t = {"f": "f out of range", "g": "g out of range", "i": "f not invertible", "n": "norm too large", "s": "no solution", "F": "F out of range", "A": "good"}
        return "attempts (%s)" % ", ".join("%s at %d" % (t[a[0]], a[1]) if a[0] in "fgiF" else t[a[0]] for a in self.hist)

    def rep(self, a):
        """concrete values that choose the path"""
        N, B = self.N, FGB[self.N]
        if isinstance(a, T):
            s = str(a.args[0])
        elif a.kind == "in":
            s = str(a.args[0])
        else:
            return None
        k = re.match(r"([a-zA-Z]+)(\d+)(?:\[(\d+)\])?$", s)
        if not k:
            return None
        nm, j, i = k.group(1), int(k.group(2)), int(k.group(3) or 0)
        if nm == "p":
            o, at = self.attempt(j // 2)
            if (o, j % 2) in (("f", 0), ("g", 1)) and i == at:
                return (B + 1) if at % 2 else -(B + 1)
            return (i * 7 + j * 3) % (2 * B + 1) - B
        if nm == "nt":
            o, at = self.attempt(self.inv[j] // 2 if self.inv[j] is not None else 0)
            return 0 if o == "i" and i == at else (i * 29 + j) % (Q - 1) + 1
        if nm == "gs":
            o, at = self.attempt(self.gs[j] // 2)
            return GS * (1.0 + 1e-7) if o == "n" else GS * (1.0 - 1e-7)
        if nm in "FG":
            o, at = self.attempt(self.solved[j] // 2)
            if nm == "G":
                return (i * 13 + j) % 2001 - 1000
            if o == "F" and i == at:
                return 128 if at % 2 else -128
            return (i * 11 + j) % 255 - 127
        return None

    # ---------------------------------------------------------- stand-ins
    def gen_poly(self, I, st, ins, args):
        p, rng = args[:2]
        if self.rng is not None:
            self.need("f and g come from the generator given", rng == self.rng, lambda: "coefficients are drawn from %r" % (rng,))
        j = self.polys
        self.polys += 1
        self.attempt(j // 2)
        for i in range(self.N):
            I.write(st, p.obj, p.off + 4 * i, 4, D.atom("p%d[%d]" % (j, i), 32, slo=-100000, shi=100000))
        return st, None

    def whose(self, I, st, p, what):
        """number of the polynomial an array holds"""
        ns = set()
        for i in range(self.N):
            v = read(I, st, p.obj, p.off + 4 * i, 32)
            k = leafname(v) if v is not UNDEF else None
            if k is None or k[0] != "p" or k[2] != i:
                self.need("%s is given f or g" % what, False, lambda: "element %d is %s" % (i, "never written" if v is UNDEF else D.show(v, 2)), und=v is not UNDEF and type(v) is not int and not k)
                raise Done()
            ns.add(k[1])
        if not self.need("%s is given f or g" % what, len(ns) == 1, lambda: "coefficients of polynomials %s are mixed" % sorted(ns)):
            raise Done()
        return ns.pop()

    def ntt(self, I, st, ins, args):
        p = args[0]
        ns = set()
        B = FGB[self.N]
        every = np.arange(-B, B + 1)
        rule = "invertibility is tested on f modulo q"
        for i in range(self.N):
            v = read(I, st, p.obj, p.off + 2 * i, 16)
            ls = tab.leaves(v) if v is not UNDEF else set()
            z = next(iter(ls)) if len(ls) == 1 else None
            k = leafname(z)
            if k is None or k[0] != "p":
                self.need(rule, False, lambda: "element %d is %s" % (i, "never written" if v is UNDEF else D.show(v, 3)[:200]), und=v is not UNDEF and len(ls) != 0)
                raise Done()
            try:
                vals = every[self.allowed(z, every, ("p", B))]
                r = VE.table(v, z, every, ("p", B), False)[self.allowed(z, every, ("p", B))]
            except tab.NoTable:
                self.need(rule, False, lambda: "element %d is %s" % (i, D.show(v, 3)[:200]), und=True)
                raise Done()
            bad = np.nonzero(r != vals % Q)[0]
            if not self.need(rule, len(bad) == 0 and k[2] == i, lambda: "element %d of what is transformed is %s for the coefficient %s = %d" % ((i, r[bad[0]], z.args[0], vals[bad[0]]) if len(bad) else (i, "coefficient %d" % k[2], z.args[0], 0))):
                raise Done()
            ns.add(k[1])
        if not self.need(rule, len(ns) == 1, lambda: "polynomials %s are mixed" % sorted(ns)):
            raise Done()
        j = len(self.inv)
        self.inv.append(ns.pop())
        for i in range(self.N):
            I.write(st, p.obj, p.off + 2 * i, 2, D.atom("nt%d[%d]" % (j, i), 16, ulo=0, uhi=Q - 1))
        return st, None

    def gsnorm(self, I, st, ins, args):
        a, b = self.whose(I, st, args[0], "the norm"), self.whose(I, st, args[1], "the norm")
        self.need("the Gram-Schmidt norm is that of f and g of one attempt", a // 2 == b // 2 and a != b, lambda: "it is that of polynomials %d and %d" % (a, b))
        j = len(self.gs)
        self.gs.append(a)
        return st, RL.var("gs%d" % j)

    def solve(self, I, st, ins, args):
        ret, p, q = args[:3]
        N = self.N
        ns = []
        for ptr in (p, q):
            s = set()
            for i in range(N):
                v = readd(I, st, ptr.obj, ptr.off + 8 * i)
                a = RL.single(v) if type(v) is R else None
                k = leafname(a.args[0]) if a is not None and a.kind == "int" else None
                if k is None or k[0] != "p" or k[2] != i:
                    self.need("the NTRU equation is solved for f and g", False, lambda: "coefficient %d is %s" % (i, SI.show(v)), und=v is not UNDEF and type(v) is not float and k is None)
                    raise Done()
                s.add(k[1])
            if not self.need("the NTRU equation is solved for f and g", len(s) == 1, lambda: "polynomials %s are mixed" % sorted(s)):
                raise Done()
            ns.append(s.pop())
        j = len(self.solved)
        self.solved.append(ns[0])
        self.pair = getattr(self, "pair", []) + [tuple(ns)]
        o, at = self.attempt(ns[0] // 2)
        for i in range(N):
            for o2, nm in ((8 * i, "F"), (8 * (N + i), "G")):
                x = RL.var("%s%d[%d]" % (nm, j, i))
                # less than 31 bits, see the assumptions
                I.fromreal(x, 64, (0, (1 << 64) - 1, -(1 << 30) + 1, (1 << 30) - 1))
                I.write(st, ret.obj, ret.off + o2, 8, x)
        I.write(st, ret.obj, ret.off + 16 * N, 4, 1 if o == "s" else 0)
        return st, None

    def branch(self, ins, c, t, st):
        """the path the representatives take; what it establishes is kept"""
        if t is not None:
            return None
        try:
            r = self.reps.int(c)
        except BG.NoRep:
            return None
        self.fact(c, r)
        return r

    def fact(self, t, r):
        if type(t) is not T:
            return
        if t.op == "not":
            return self.fact(t.args[0], 1 - r)
        if t.op == "band" and r:
            for z in t.args[0]:
                self.fact(z, 1)
            return
        if t.op in ("zext", "trunc") and t.args[0].w == 1:
            return self.fact(t.args[0], r)
        if t.op == "ite" and t.w == 1:
            c, a, b = t.args
            z = self.reps.int(c)
            x = a if z else b
            if type(x) is int:
                # the other arm is excluded if it is a constant that differs
                y = b if z else a
                if type(y) is int and y != x:
                    return self.fact(c, z)
            elif type(b if z else a) is int and (b if z else a) != r:
                self.fact(c, z)
                return self.fact(x, r)
        x, v = t, r
        while x.op == "not":
            x, v = x.args[0], 1 - v
        if x.op in ("flt", "feq"):
            a = RL.atoms_of(x.args[0].r) if type(x.args[0].r) is R else ()
            ks = {str(RL.ATOMS[y].args[0]) for y in a if RL.ATOMS[y].kind == "in"}
            if len(a) == 1 and len(ks) == 1 and next(iter(ks)).startswith("gs"):
                self.gsfacts.append((int(next(iter(ks))[2:]), x, v))
                return
        ls = tab.leaves(t)
        if len(ls) == 1:
            z = next(iter(ls))
            self.facts.setdefault(z, []).append((t, r))
        else:
            self.odd.append("%s (%s)" % (D.show(t, 2)[:150], len(ls)))

    def allowed(self, z, vals, key):
        """the values of a leaf on the path taken"""
        ok = np.ones(len(vals), bool)
        for t, r in self.facts.get(z, ()):
            try:
                ok &= VE.table(t, z, vals, key, False) == r
            except tab.NoTable:
                pass
        return ok

    def install(self, I):
        m, N = self.m, self.N
        lg = N.bit_length() - 1
        self.reps = BG.Reps(self.rep)
        BG.install(I, self.reps)
        I.oncmp = None
        I.onbranch = self.branch
        I.mergeham = True
        for pat, h in ((r"^void ntru_gen::gen_poly<%dul>\(" % lg, self.gen_poly), (r"^void ntt::ntt<%dul>" % lg, self.ntt), (r"^double ntru_gen::gram_schmidt_norm<%dul>\(" % lg, self.gsnorm)):
            I.icp[func(m, pat).name] = h
        I.icp[inst(m, SOLVE)[N].name] = self.solve


def gen(m, N, hist):
    def go(ctx):
        fresh_domains()
        rex.reset()
        f = func(m, r"^void ntru_gen::ntru_gen<%dul>\(" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        M = Model(ctx, m, N, hist, w)
        M.install(I)
        I.maxtrip = 1 << 20
        I.maxsteps = 30_000_000
        rng = Obj("rng", 224, "input", None, 1)
        M.rng = P(rng)
        o = [out(x, 4 * N) for x in "fgFG"]
        try:
            st, _ = I.call(f, [P(x) for x in o] + [P(rng)], State())
        except Done:
            return
        h = M.story()
        vs = [[read(I, st, x, 4 * i, 32) for i in range(N)] for x in o]
        names = []
        for k, nm in ((0, "f"), (1, "g")):
            s = set()
            for i, v in enumerate(vs[k]):
                q = leafname(v) if type(v) is T else None
                if not M.need("f and g returned are polynomials drawn", q is not None and q[0] == "p" and q[2] == i, lambda: "%s[%d] is %s" % (nm, i, "never written" if v is UNDEF else D.show(v, 2)), und=type(v) is T and q is None):
                    return
                s.add(q[1])
            if not M.need("f and g returned are polynomials drawn", len(s) == 1, lambda: "%s is a mixture of polynomials %s" % (nm, sorted(s))):
                return
            names.append(s.pop())
        a, b = names
        last = len(hist) - 1
        M.need("f and g returned are those of one attempt", a // 2 == b // 2 and a != b, lambda: "%s: f is polynomial %d, g is polynomial %d" % (h, a, b))
        # the solution
        js = set()
        vals = PV
        for k, nm in ((2, "F"), (3, "G")):
            for i, v in enumerate(vs[k]):
                q = leafname(v) if type(v) is T else None
                if q is None and type(v) is T:
                    q = next((leafname(z) for z in tab.leaves(v)), None) if v.op in ("sext", "trunc", "zext") else None
                if not M.need("F and G returned are a solution found", q is not None and q[0] == nm and q[2] == i, lambda: "%s[%d] is %s" % (nm, i, "never written" if v is UNDEF else D.show(v, 2)), und=type(v) is T and q is None):
                    return
                js.add(q[1])
        if not M.need("F and G returned are a solution found", len(js) == 1, lambda: "solutions %s are mixed" % sorted(js)):
            return
        j = js.pop()
        M.need("F and G returned solve the equation of f and g returned", M.pair[j] == (a, b), lambda: "%s: f, g are polynomials %s, the solution is that of %s" % (h, (a, b), M.pair[j]))
        at = a // 2
        M.need("a pair is only taken if the equation has a solution", M.attempt(at)[0] != "s", lambda: "%s: the attempt without a solution is taken" % h)
        # what the path to acceptance has established
        B = FGB[N]
        und = bool(M.odd)
        for pv, nm, bound, vv in ((vs[0], "f", B, PV), (vs[1], "g", B, PV), (vs[2], "F", FB, PV)):
            for i in range(N):
                z = pv[i] if leafname(pv[i]) else next(iter(tab.leaves(pv[i])))
                ok = M.allowed(z, vv, ("PV",))
                big = vv[ok & (np.abs(vv) > bound)]
                rule = "coefficients of f, g and F returned fit the secret key"
                rv = M.rep(z if z.op == "atom" else RL.single(z.args[0].r))
                if not M.need(rule, len(big) == 0, lambda: "%s: %s[%d] may be %d, at most %d can be encoded" % (h, nm, i, big[0], bound), und=und and abs(rv) <= bound):
                    break
                lost = vv[~ok & (np.abs(vv) <= bound)]
                if not M.need("nothing that fits is thrown away", len(lost) == 0, lambda: "%s[%d] = %d is not accepted" % (nm, i, lost[0])):
                    break
        # invertibility
        hits = [k for k, x in enumerate(M.inv) if x == a]
        rule = "f returned is invertible modulo q"
        if M.need(rule, bool(hits), lambda: "%s: f is never transformed, so its values are not known to be nonzero" % h):
            for i in range(N):
                res = []
                for k in hits:
                    z = D.atom("nt%d[%d]" % (k, i), 16, ulo=0, uhi=Q - 1)
                    res.append(M.allowed(z, NV, ("NV",)))
                bad = min(res, key=lambda r: r[0])
                rv = [M.rep(D.atom("nt%d[%d]" % (k, i), 16, ulo=0, uhi=Q - 1)) for k in hits]
                if not M.need(rule, not bad[0], lambda: "%s: value %d of f's transform may be 0" % (h, i), und=und and all(rv)):
                    break
                lost = NV[1:][~bad[1:]]
                if not M.need("nothing invertible is thrown away", len(lost) == 0, lambda: "value %d of f's transform must not be %d" % (i, lost[0])):
                    break
        # norm
        hits = [k for k, x in enumerate(M.gs) if x // 2 == at]
        rule = "the Gram-Schmidt norm of the basis returned is at most 1.17^2 q"
        if M.need(rule, bool(hits), lambda: "%s: the norm is never computed" % h):
            best = None
            for k, x, v in M.gsfacts:
                if k not in hits:
                    continue
                d = x.args[0].r
                if x.op == "flt" and type(d) is R and not d.den:
                    c0 = d.num.get((), 0.0)
                    c1 = [c for mm, c in d.num.items() if mm != ()]
                    deg = [mm for mm in d.num if mm != ()]
                    if len(c1) == 1 and len(deg[0]) == 1 and deg[0][0][1] == 1:
                        # c1 gs + c0 < 0 is v
                        upper = (c1[0] > 0) == bool(v)
                        if upper:
                            th = -c0 / c1[0]
                            best = th if best is None else min(best, th)
            M.need(rule, best is not None and abs(best - GS) < 1e-6, lambda: "%s: %s" % (h, "it is not compared with a bound" if best is None else "the bound is %.10g, must be %.10g" % (best, GS)), und=best is None and bool(M.odd))
        M.need("key generation ends with the first pair that passes every test", at == last and M.polys == 2 * last + 2, lambda: "%s: the pair taken is that of attempt %d, %d polynomials were drawn" % (h, at, M.polys))
        ctx.obligations(I, NOUB, "ntru_gen: no undefined behaviour")
        ctx.took(I)
    return go


def hists(N, tier):
    yield [("A", 0)]
    ks = "fginsF"
    ps = [0, 1, N // 2, N - 2, N - 1]
    for x, k in enumerate(ks):
        for y in (range(5) if k in "fgiF" else range(1)):
            yield [(k, ps[y]), ("A", 0)]
    yield [(k, ps[x % 5]) for x, k in enumerate(ks)] + [("A", 0)]
    yield [(k, ps[x % 5]) for x, k in enumerate("FsnigfFFssii")] + [("A", 0)]
    if tier == "thorough":
        for p in range(0, N, 7):
            yield [("fgiF"[p % 4], p), ("A", 0)]


# ------------------------------------------------------------- drawing f, g
def draw(m, N):
    def go(ctx):
        fresh_domains()
        lg = N.bit_length() - 1
        f = func(m, r"^void ntru_gen::gen_poly<%dul>\(" % lg)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        calls = []
        rng = Obj("rng", 224, "input", None, 1)

        def samp(I, st, ins, args):
            mu, sg, smin, r = args[:4]
            k = len(calls)
            calls.append(k)
            ctx.need("coefficients are drawn with mean 0 and deviation 1.17 sqrt(q/8192)", mu == 0 and type(mu) is float and type(sg) is float and abs(sg - SIG) < 1e-12, w, lambda: "mean %s, deviation %s" % (SI.show(mu), SI.show(sg)))
            ctx.need("sigma_min is at most the deviation", type(smin) is float and 0 < smin <= SIG, w, lambda: "sigma_min is %s" % SI.show(smin))
            ctx.need("f and g come from the generator given", r == P(rng), w, lambda: "drawn from %r" % (r,))
            return st, D.atom("s%d" % k, 32, slo=-1000, shi=1000)
        sz = [x for x in m.funcs.values() if re.search(r"\bsamplerz::samplerz\(double, double, double, prng::prng_t&", x.dem)]
        if len(sz) != 1:
            raise Anchor("no samplerz")
        I.icp[sz[0].name] = samp
        o = out("poly", 4 * N)
        st, _ = I.call(f, [P(o), P(rng)], State())
        used = set()
        n = 4096 // N
        for i in range(N):
            v = read(I, st, o, 4 * i, 32)
            rule = "a coefficient is the sum of %d samples of its own" % n
            c, bs = D.lin_of(v, 32) if v is not UNDEF else (1, ())
            good = c == 0 and len(bs) == n and all(k == 1 and type(z) is T and z.op == "atom" and str(z.args[0]).startswith("s") for z, k in bs)
            if not ctx.need(rule, good, w, lambda: "coefficient %d is %s" % (i, "never written" if v is UNDEF else D.show(v, 3)[:200])):
                break
            z = {x for x, _ in bs}
            if not ctx.need(rule, not z & used, w, lambda: "coefficient %d reuses a sample" % i):
                break
            used |= z
        ctx.obligations(I, NOUB, "gen_poly: no undefined behaviour")
        ctx.took(I)
    return go


# -------------------------------------------------------------------- norm
def squares(r, want, weight, what):
    """None if r is weight * the sum of the squares of `want`, else a text"""
    if type(r) is not R or r.den:
        return "%s is %s" % (what, SI.show(r))
    idx = {}
    sqs = [RL.mul(x, x) for x in want]
    pairs = [(j, sqs[j]) for j in range(len(want))] + [(j, RL.add(sqs[j], sqs[j + 1])) for j in range(0, len(want) - 1, 2)]
    for j, x in pairs:
        idx.setdefault(RL.sig(x), []).append((j, x))
    left = set(range(len(want)))
    for mm, c in r.num.items():
        e = rex.expand(R({mm: 1.0}))
        hit = next(((j, x) for j, x in idx.get(RL.sig(e), ()) if j in left and RL.equal(e, x)), None)
        if hit is None:
            return "a term of %s is %s" % (what, SI.show(e))
        if abs(c - weight) > 1e-9 * weight:
            return "a square in %s has weight %.10g, must be %.10g" % (what, c, weight)
        left.discard(hit[0])
        if hit[1] is not sqs[hit[0]]:
            left.discard(hit[0] + 1)
    if left:
        return "%s lacks the square of %s" % (what, SI.show(want[min(left)]))
    return None


def norm(m, N):
    """max(|f|^2 + |g|^2, q^2 (|f*|^2 + |g*|^2) / N), f* = adj f / (f adj f + g adj g)"""
    def go(ctx):
        lg = N.bit_length() - 1
        f = func(m, r"^double ntru_gen::gram_schmidt_norm<%dul>\(" % lg)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        B = FGB[N]
        res = []
        fresh_domains()
        rex.reset()
        for big in (0, 1):
            I = interp(m)
            M = SI.Model(ctx, m, N, ["A"], w)
            I.icp[func(m, r"^void fft::fft<%dul>" % lg).name] = M.fft
            I.icp[func(m, r"^void fft::ifft<%dul>" % lg).name] = M.ifft
            I.canon = rex.name
            seen = []

            def cmp(ins, t):
                x, v = t, big
                while type(x) is T and x.op == "not":
                    x, v = x.args[0], 1 - v
                if type(x) is T and x.op == "flt":
                    seen.append((x.args[0].r, v))
                    return big
                return t
            I.oncmp = cmp
            fo, go_ = words_in("f", N, 32, -B, B), words_in("g", N, 32, -B, B)
            st, r = I.call(f, [P(fo), P(go_)], State())
            ctx.took(I)
            ctx.obligations(I, NOUB, "gram_schmidt_norm: no undefined behaviour")
            if not ctx.need("the norm is the larger of two", len(seen) == 1, w, lambda: "%d comparisons decide it" % len(seen), und=len(seen) > 1):
                return
            res.append((seen[0], r))
            xs = [I.of_int(read(I, st, o, 4 * i, 32), 32, True) for o in (fo, go_) for i in range(N)]
        want2 = []
        for i in range(N):
            a, b = SI.var2("^f", i), SI.var2("^g", i)
            den = (RL.add(SI.sq(a), SI.sq(b)), 0.0)
            for x in (a, b):
                want2 += [RL.div(SI.conj(x)[0], den[0]), RL.div(SI.conj(x)[1], den[0])]
        rule = "the norm is max(|f|^2 + |g|^2, q^2 (|f*|^2 + |g*|^2) / N)"
        ((d0, v0), r0), ((d1, v1), r1) = res
        which = {}
        for k, r in ((0, r0), (1, r1)):
            first = type(r) is R and any(RL.ATOMS[mm[0][0]].kind == "int" for mm in r.num if mm)
            t = squares(r, xs, 1.0, "|f|^2 + |g|^2") if first else squares(r, want2, float(Q) * Q / N, "q^2 (|f*|^2 + |g*|^2) / N")
            if not ctx.need(rule, t is None, w, t):
                return
            which[k] = first
        if not ctx.need(rule, which[0] != which[1], w, "the result is always the %s norm" % ("first" if which[0] else "second")):
            return
        for (d, v), r, o in ((res[0][0], r0, r1), (res[1][0], r1, r0)):
            # where d < 0 is v, r is the result: r - o >= 0
            e = RL.sub(r, o)
            s = RL.neg(d) if v else d
            ok = RL.equal(e, s)
            anti = not ok and RL.equal(e, RL.neg(s))
            if not ok and not anti and type(d) is R and len(d.num) < 5000:
                # up to a positive factor
                k = next(iter(RL.lift(e).num))
                c = s.num.get(k, 0.0) / e.num[k] if type(s) is R else 0.0
                ok = c > 0 and RL.equal(RL.mul(e, c), s)
            ctx.need(rule, ok, w, "the smaller of the two is taken" if anti else "something else than the two norms decides which of them is returned")
    return go


# -------------------------------------------------------------- public key
class KM(VE.Model):
    """small integer coefficients of f and g instead of those of s2"""

    def __init__(self, m, N):
        super().__init__(m, N, FGB[N])

    def canon(self, v):
        if type(v) is not T or v.w != 16 or v.op in ("fq", "atom"):
            return v
        ls = tab.leaves(v)
        if len(ls) == 1:
            z, = ls
            k = re.match(r"([fg])\[(\d+)\]$", str(z.args[0])) if type(z) is T and z.op == "atom" else None
            if k:
                try:
                    r = VE.table(v, z, self.vals, self.smax, False)
                except tab.NoTable:
                    return v
                for c in (1, -1):
                    if np.array_equal(r, (c * self.vals) % Q):
                        s = D.atom("%s'[%s]" % (k.group(1), k.group(2)), 16, ulo=0, uhi=Q - 1)
                        return s if c == 1 else D.fq({((s, 1),): Q - 1})
                return v
        return super().canon(v)

    def s2map(self, v):
        ls = tab.leaves(v)
        z = next(iter(ls)) if len(ls) == 1 else None
        if type(z) is not T or z.op != "atom" or not re.match(r"[fg]\[", str(z.args[0])):
            return None
        try:
            r = VE.table(v, z, self.vals, self.smax, False)
        except tab.NoTable:
            return None
        for c in (1, -1):
            bad = np.nonzero(r != (c * self.vals) % Q)[0]
            if len(bad) == 0:
                return None
        bad = np.nonzero(r != self.vals % Q)[0]
        return "for %s = %d the value transformed is %d, must be %d" % (z.args[0], self.vals[bad[0]], r[bad[0]], self.vals[bad[0]] % Q)

    def inverse(self, v):
        """a stand-in for 1/v"""
        p = D.mq(v) if type(v) is T else None
        if p is None or len(p) != 1:
            return D.fresh("inv", 16, 0, Q - 1)
        (mm, c), = p.items()
        if len(mm) != 1 or mm[0][1] != 1 or not isinstance(mm[0][0], T):
            return D.fresh("inv", 16, 0, Q - 1)
        z = mm[0][0]
        s = str(z.args[0])
        k = re.match(r"(.*)(\[\d+\])$", s)
        if not k:
            return D.fresh("inv", 16, 0, Q - 1)
        nm = k.group(1)[2:] if nm_inv(k.group(1)) else "1/" + k.group(1)
        self.tnames.add(nm)
        i = D.atom(nm + k.group(2), 16, ulo=0, uhi=Q - 1)
        return i if c == 1 else D.fq({((i, 1),): pow(c, Q - 2, Q)})

    def intt(self, I, st, ins, args):
        v = self.val(I, st, args[0])
        p = D.mq(v) if type(v) is T else None
        for mm in p or ():
            for z, _ in mm:
                if type(z) is T and z.op == "atom" and re.match(r"(1/)?[fg]'\[", str(z.args[0])):
                    self.bad.append(("what is transformed back was transformed", "element 0 is a product with %s, which is a coefficient" % z.args[0]))
                    return super().intt(I, st, ins, args)
        return super().intt(I, st, ins, args)

    def inv(self, I, st, ins, args):
        return st, self.inverse(self.val(I, st, args[0]))

    def val(self, I, st, x):
        v = read(I, st, x.obj, x.off, 16) if type(x) is Ptr else x
        return self.canon(v) if type(v) is T else v

    def div(self, I, st, ins, args):
        a, b = (self.val(I, st, x) for x in args[:2])
        i = self.inverse(b)
        r = D.pmul(D.mq(a), D.mq(i)) if isinstance(a, T) else {}
        v = D.fq(r)
        return st, v


def nm_inv(s):
    return s.startswith("1/")


def pubkey(m, N):
    def go(ctx):
        fresh_domains()
        lg = N.bit_length() - 1
        f = func(m, r"^void keygen::compute_public_key<%dul>\(" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        M = KM(m, N)
        M.coeffnames = {"f'", "g'"}
        M.tnames = set()
        I.canon = M.canon
        for pat, h in ((r"^void ntt::ntt<%dul>" % lg, M.ntt), (r"^void ntt::intt<%dul>" % lg, M.intt)):
            I.icp[func(m, pat).name] = h
        for x in m.funcs.values():
            if re.search(r"\bff::ff_t::operator/\(", x.dem):
                I.icp[x.name] = M.div
            if re.search(r"\bff::ff_t::inv\(\)", x.dem):
                I.icp[x.name] = M.inv
        B = FGB[N]
        fo, go_, h = words_in("f", N, 32, -B, B), words_in("g", N, 32, -B, B), out("h", 2 * N)
        st, _ = I.call(f, [P(fo), P(go_), P(h)], State())
        for rule, t in M.bad:
            ctx.need(rule.replace("s2 is", "f and g are"), False, w, t)
        for rule, t in M.und:
            ctx.need(rule, False, w, t, und=True)
        bad = 0
        for i in range(N):
            v = read(I, st, h, 2 * i, 16)
            rule = "h = g / f modulo q"
            p = VE.poly_at(M.canon(v), N, i, M.coeffnames) if v is not UNDEF else {}
            good = p is not None and len(p) == 1 and next(iter(p.values())) == 1 and next(iter(p)) in (("1/^f'*^g'",), ("1/f'*g'",), ("^f*g",))
            good = good or p is not None and p == {(hname(M),): 1}
            if not good:
                bad += 1
                ctx.need(rule, False, w, lambda: "coefficient %d is %s" % (i, "never written" if v is UNDEF else VE.show(p) if p is not None else D.show(v, 3)[:200]), und=(p is None or bool(M.und)) and not onepoint(M.canon(v)))
                if bad > 2:
                    break
            else:
                ctx.need(rule, True, w, "")
        ctx.obligations(I, NOUB, "compute_public_key: no undefined behaviour")
        ctx.took(I)
    return go


def onepoint(v):
    """a single product of coefficients of f, g or their transforms: every
    coefficient of g / f depends on all of g"""
    p = D.mq(v) if type(v) is T else None
    return p is not None and len(p) == 1 and all(type(z) is T and z.op == "atom" and re.match(r"(1/)?\^?[fg]'\[", str(z.args[0])) for z, _ in next(iter(p)))


def hname(M):
    return "/^f'*g'"


# ----------------------------------------------------------- whole key pairs
def user(m, N):
    """falcon::keygen: bytes"""
    def go(ctx):
        fresh_domains()
        f = [x for x in m.funcs.values() if re.match(r"^void falcon::keygen<%dul>\(" % N, x.dem)]
        if len(f) != 1:
            raise Anchor("no falcon::keygen<%d>" % N)
        f = f[0]
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        done = []
        gens = []

        def put(I, st, p, nm, b, sz=4):
            for i in range(N):
                I.write(st, p.obj, p.off + sz * i, sz, D.atom("%s[%d]" % (nm, i), 8 * sz, slo=-b, shi=b) if sz == 4 else D.atom("%s[%d]" % (nm, i), 16, ulo=0, uhi=Q - 1))

        def is_(I, st, p, nm, sz=4):
            for i in range(N):
                v = read(I, st, p.obj, p.off + sz * i, 8 * sz)
                if not (type(v) is T and v.op == "atom" and v.args[0] == "%s[%d]" % (nm, i)):
                    return "%s[%d] is %s" % (nm, i, "never written" if v is UNDEF else D.show(v, 2))
            return None

        def ntru(I, st, ins, args):
            k = len(gens)
            gens.append(args[4])
            for p, nm, b in zip(args, "fgFG", (FGB[N], FGB[N], FB, 30000)):
                put(I, st, p, nm if not k else "%s.%d" % (nm, k), b)
            return st, None

        def pub(I, st, ins, args):
            t = is_(I, st, args[0], "f") or is_(I, st, args[1], "g")
            ctx.need("the public key is computed from f and g", t is None, w, t)
            put(I, st, args[2], "h", 0, 2)
            return st, None

        def epk(I, st, ins, args):
            t = is_(I, st, args[0], "h", 2)
            ctx.need("the public key encoded is h", t is None and args[1] == P(pk), w, lambda: t or "it goes to %r" % (args[1],))
            done.append("pk")
            return st, None

        def esk(I, st, ins, args):
            t = is_(I, st, args[0], "f") or is_(I, st, args[1], "g") or is_(I, st, args[2], "F")
            ctx.need("the secret key encoded is f, g, F", t is None and args[3] == P(sk), w, lambda: t or "it goes to %r" % (args[3],))
            done.append("sk")
            return st, None
        for pat, h in ((r"^void ntru_gen::ntru_gen<%dul>\(" % N, ntru), (r"^void keygen::compute_public_key<%dul>\(" % N, pub), (r"^\w+ encoding::encode_pkey<%dul>" % N, epk), (r"^\w+ encoding::encode_skey<%dul>" % N, esk)):
            I.icp[func(m, pat).name] = h
        pk, sk = out("pkey", 14 * N // 8 + 1), out("skey", {512: 1281, 1024: 2305}[N])
        st, _ = I.call(f, [P(pk), P(sk)], State())
        ctx.need("both keys are encoded", sorted(set(done)) == ["pk", "sk"], w, lambda: "encoded: %s" % done)
        ctx.need("one key pair is generated", len(gens) == 1, w, lambda: "%d pairs are generated" % len(gens))
        ctx.obligations(I, NOUB, "keygen: no undefined behaviour")
        ctx.took(I)
    return go


def tree(m, N):
    """keygen::keygen: basis, tree and public key"""
    def go(ctx):
        fresh_domains()
        rex.reset()
        lg = N.bit_length() - 1
        f = ptr_target(m, "fl_keygen_tree_%d" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        M = SI.Model(ctx, m, N, ["A"], w)
        rng = Obj("rng", 224, "input", None, 1)
        sg = RL.var("sigma")
        one = []

        def ntru(I, st, ins, args):
            one.append(args[4])
            ctx.need("key generation uses the generator given", args[4] == P(rng), w, lambda: "it uses %r" % (args[4],))
            for p, nm, b in zip(args, "fgFG", (FGB[N], FGB[N], FB, 30000)):
                for i in range(N):
                    I.write(st, p.obj, p.off + 4 * i, 4, D.atom("%s[%d]" % (nm, i), 32, slo=-b, shi=b))
            return st, None

        def pub(I, st, ins, args):
            for p, nm in ((args[0], "f"), (args[1], "g")):
                for i in range(N):
                    v = read(I, st, p.obj, p.off + 4 * i, 32)
                    if not ctx.need("the public key is computed from f and g", type(v) is T and v.op == "atom" and v.args[0] == "%s[%d]" % (nm, i), w, lambda: "%s[%d] is %s" % (nm, i, D.show(v, 2) if v is not UNDEF else "never written")):
                        break
            for i in range(N):
                I.write(st, args[2].obj, args[2].off + 2 * i, 2, D.atom("h[%d]" % i, 16, ulo=0, uhi=Q - 1))
            return st, None

        def normalize(I, st, ins, args):
            Tp, s = args[:2]
            ctx.need("the tree is normalised with the sigma given", type(s) is R and RL.equal(s, sg), w, lambda: "sigma is %s" % SI.show(s))
            for i in range((lg + 1) * N):
                x = M.cplx(I, st, Tp, i)
                if not ctx.need("the tree normalised is the one built", all(rex.equal(p, q) for p, q in zip(x, SI.var2("ldl", i))), w, lambda: "element %d is %s" % (i, SI.show(x[0]))):
                    break
            for i in range((lg + 1) * N):
                M.putc(I, st, Tp, i, SI.var2("T", i))
            return st, None
        nm = ("^g", "^f", "^G", "^F")

        def Bm(j, i):
            x = SI.var2(nm[j], i)
            return x if j in (0, 2) else (RL.neg(x[0]), RL.neg(x[1]))
        M.B = Bm
        for pat, h in ((r"^void ntru_gen::ntru_gen<%dul>\(" % N, ntru), (r"^void keygen::compute_public_key<%dul>\(" % N, pub), (r"^void fft::fft<%dul>" % lg, M.fft), (r"^void fft::ifft<%dul>" % lg, M.ifft),
                       (r"^void falcon_tree::ffldl<%dul, 0ul, %dul>" % (N, lg), M.ffldl), (r"^void falcon_tree::normalize_tree<%dul, 0ul, %dul>" % (N, lg), normalize)):
            I.icp[func(m, pat).name] = h
        I.canon = rex.name
        B, Tt, h = out("B", 64 * N), out("T", 16 * (lg + 1) * N), out("h", 2 * N)
        st, _ = I.call(f, [P(B), P(Tt), P(h), sg, P(rng)], State())
        ctx.need("one key pair is generated", len(one) == 1, w, lambda: "%d pairs are generated" % len(one))
        for j in range(4):
            for i in range(N):
                x = M.cplx(I, st, P(B), j * N + i)
                if not all([M.same("the basis is [[g, -f], [G, -F]]", u, v, "element %d of block %d" % (i, j)) for u, v in zip(x, Bm(j, i))]):
                    break
        for i in range((lg + 1) * N):
            x = M.cplx(I, st, P(Tt), i)
            if not all([M.same("the tree returned is the normalised one", u, v, "element %d" % i) for u, v in zip(x, SI.var2("T", i))]):
                break
        for i in range(N):
            v = read(I, st, h, 2 * i, 16)
            if not ctx.need("the public key returned is that of f and g", type(v) is T and v.op == "atom" and v.args[0] == "h[%d]" % i, w, lambda: "h[%d] is %s" % (i, D.show(v, 2) if v is not UNDEF else "never written")):
                break
        ctx.obligations(I, NOUB, "keygen: no undefined behaviour")
        ctx.took(I)
    return go


def p14(ctx):
    m = module()
    ctx.assume = ["the NTRU equation is solved, f and g transformed, and samples drawn as P15, P08, P09 and P17 establish", "floating-point rounding is not modelled: doubles are read as real numbers",
                  "solutions of the NTRU equation have coefficients of less than 31 bits"]
    jobs = []
    for N in (1024, 512):
        jobs += [gen(m, N, h) for h in hists(N, ctx.tier)] + [draw(m, N), norm(m, N)]
    ctx.fork(jobs)
    ctx.minimum("coefficients of f, g and F returned fit the secret key", 3 * 1536 * 20)
    ctx.minimum("f returned is invertible modulo q", 1536 * 20)


def p20(ctx):
    m = module()
    ctx.assume = ["key pairs, transforms and trees are as P14, P08, P09 and P18 establish", "floating-point rounding is not modelled: doubles are read as real numbers"]
    ctx.fork([j(m, N) for N in (1024, 512) for j in (pubkey, user, tree)])
    ctx.minimum("h = g / f modulo q", 1536)
