"""P18, P19: the Falcon tree and fast Fourier sampling, one recursion level at a time."""
import rex
from chk import *
from lib import *
from checks.signing import cadd, cdiv, cmul, conj, show, sq, var2

NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite")


def levels(quick=False):
    for TH in (10, 9):
        for at in range(TH + 1):
            yield TH, at


class Level:
    """one level of a recursion over the tree"""

    def __init__(self, ctx, m, TH, at):
        self.ctx, self.m, self.TH, self.at = ctx, m, TH, at
        self.n = 1 << TH                   # size of the whole ring
        self.N = 1 << (TH - at)            # size at this level
        self.h = self.N // 2
        self.off = self.n                  # distance between a node and its left child

    def find(self, pat, at):
        return func(self.m, pat % (1 << (self.TH - at), at, self.TH))

    def need(self, rule, ok, msg, und=False):
        return self.ctx.need(rule, ok, self.w, msg, und)

    def same(self, rule, a, b, what):
        if type(a) in (R, float) and rex.equal(a, b):
            return self.need(rule, True, "")
        d = rex.differ(a, b)
        return self.need(rule, False, lambda: "%s is %s, must be %s%s" % (what, show(a), show(b), "" if d is None else " (e.g. %.6g instead of %.6g)" % d), und=d is None and type(a) in (R, float))

    def cplx(self, I, st, p, i):
        if type(p) is not Ptr or not I.checkptr(st, Ptr(p.obj, I.addoff(p.off, 16 * i)), 16, None, "read"):
            return UNDEF, UNDEF
        return readd(I, st, p.obj, p.off + 16 * i), readd(I, st, p.obj, p.off + 16 * i + 8)

    def putc(self, I, st, p, i, v):
        I.write(st, p.obj, p.off + 16 * i, 8, v[0])
        I.write(st, p.obj, p.off + 16 * i + 8, 8, v[1])

    def vec(self, I, st, p, k):
        return [self.cplx(I, st, p, i) for i in range(k)]

    def is_(self, v, want):
        return all(type(x) in (R, float) and rex.equal(x, y) for a, b in zip(v, want) for x, y in zip(a, b))

    def rsize(self):
        """elements of the tree reachable from a node of this level"""
        return (self.TH - self.at) * self.n + self.N

    def judge(self, rule, v, want, what):
        bad = 0
        for i, (a, b) in enumerate(zip(v, want)):
            for part, x, y in zip(("re", "im"), a, b):
                if bad < 2:
                    bad += not self.same(rule, x, y, "%s of %s[%d]" % (part, what, i))
        return not bad


# ------------------------------------------------------------------- P18
class Build(Level):
    def split(self, I, st, ins, args):
        f, a, b = args[:3]
        v = self.vec(I, st, f, self.N)
        for nm, want in self.split_of.items():
            if self.is_(v, want):
                break
        else:
            # not one of the two: say how it differs from the one not split yet
            nm = next((x for x in self.split_of if x not in self.done), "D11")
            self.judge("the children are built from the two diagonal blocks of L*D*adj(L)", v, self.split_of[nm], nm)
            nm = "?%d" % I.bump()
            self.split_of[nm] = v
        self.need("the children are built from the two diagonal blocks of L*D*adj(L)", True, "")
        self.done.append(nm)
        for i in range(self.h):
            self.putc(I, st, a, i, self.half(nm, 0, i))
            self.putc(I, st, b, i, self.half(nm, 1, i))
        return st, None

    def half(self, nm, k, i):
        # the blocks are self-adjoint: so is their even half
        return (RL.var("%s.even[%d]" % (nm, i)), 0.0) if k == 0 else (RL.var("%s.odd[%d].re" % (nm, i)), RL.var("%s.odd[%d].im" % (nm, i)))

    def recurse(self, I, st, ins, args):
        g, Tp = args[:2]
        side = {self.off * 16: "D00", (self.off + self.h) * 16: "D11"}.get(Tp.off if type(Tp) is Ptr and Tp.obj is self.T else None)
        if not self.need("each child is built in its own place of the tree", side is not None, lambda: "a child is built at %r" % (Tp,)):
            return st, None
        self.need("each child is built in its own place of the tree", side not in self.kids, lambda: "the child of %s is built twice" % side)
        self.kids.append(side)
        h = self.h
        blocks = [[self.half(side, 0, i) for i in range(h)], [self.half(side, 1, i) for i in range(h)],
                  [conj(self.half(side, 1, i)) for i in range(h)], [self.half(side, 0, i) for i in range(h)]]
        for k, want in enumerate(blocks):
            v = self.vec(I, st, Ptr(g.obj, g.off + 16 * h * k), h)
            # the block above the diagonal is not used by a decomposition, but belongs to the matrix
            self.judge("a child's matrix is [[even, odd], [adj odd, even]]", v, want, "block %d for the child of %s" % (k, side))
        for l in range(self.TH - self.at):
            for i in range(h):
                self.putc(I, st, Tp, l * self.n + i, var2("%s.tree%d" % (side, l), i))
        return st, None


def gram(c, N):
    """a self-adjoint positive matrix; for N = 2 the conjugate symmetry of real polynomials is known"""
    g00 = [(RL.var("g00[%d]" % (i if N > 2 else 0)), 0.0) for i in range(N)]
    g11 = [(RL.var("g11[%d]" % (i if N > 2 else 0)), 0.0) for i in range(N)]
    g10 = [var2("g10", i) for i in range(N)]
    if N == 2:
        g10[1] = conj(g10[0])
    return g00, g10, g11


def build(m, TH, at):
    def go(ctx):
        fresh_domains()
        rex.reset()
        L = Build(ctx, m, TH, at)
        N = L.N
        f = L.find(r"^void falcon_tree::ffldl<%dul, %dul, %dul>\(", at)
        L.w = "%s [level %d of %d, N=%d]" % (fwhere(None, f, m), at, TH, N)
        g00, g10, g11 = gram(L, N)
        l10 = [cdiv(a, b) for a, b in zip(g10, g00)]
        d11 = [(RL.sub(c[0], RL.mul(sq(l), a[0])), 0.0) for a, l, c in zip(g00, l10, g11)]
        L.split_of = {"D00": g00, "D11": d11}
        L.done, L.kids = [], []
        I = interp(m)
        cells = {}
        for k, v in enumerate((g00, [conj(x) for x in g10], g10, g11)):
            for i, x in enumerate(v):
                cells[16 * (k * N + i)], cells[16 * (k * N + i) + 8] = x
        G = Obj("G", 64 * N, "cinput", lambda o, s: cells.get(o) if s == 8 else None, 8)
        L.T = out("T", 16 * L.rsize())
        if N > 2:
            I.icp[func(m, r"^void fft::split_fft<%dul>\(" % (TH - at)).name] = L.split
            I.icp[L.find(r"^void falcon_tree::ffldl<%dul, %dul, %dul>\(", at + 1).name] = L.recurse
        st, _ = I.call(f, [P(G), P(L.T)], State())
        L.judge("a node holds L10 = G10 / G00", L.vec(I, st, P(L.T), N), l10, "node")
        if N == 2:
            for what, o, want in (("left", L.off, g00), ("right", L.off + 1, d11)):
                L.judge("the leaves below a node are its two diagonal entries", L.vec(I, st, P(L.T, 16 * o), 1), want, what + " leaf")
        else:
            L.need("both children are built", sorted(L.kids) == ["D00", "D11"], lambda: "built are only %s" % L.kids)
            bad = None
            for side, o in (("D00", L.off), ("D11", L.off + L.h)):
                for l in range(TH - at):
                    for i in range(L.h):
                        v = L.cplx(I, st, P(L.T), o + l * L.n + i)
                        if bad is None and side in L.kids and not L.is_([v], [var2("%s.tree%d" % (side, l), i)]):
                            bad = (side, l, i, v)
            L.need("a subtree is not overwritten once it is built", bad is None, lambda: "element %d of level %d below %s is %s" % (bad[2], bad[1], bad[0], show(bad[3][0])))
        ctx.obligations(I, NOUB, "ffldl: no undefined behaviour")
        ctx.took(I)
    return go


def normalise(m, TH, at):
    def go(ctx):
        fresh_domains()
        rex.reset()
        L = Level(ctx, m, TH, at)
        N = L.N
        f = L.find(r"^(\w+ )*void falcon_tree::normalize_tree<%dul, %dul, %dul>\(", at)
        L.w = "%s [level %d of %d, N=%d]" % (fwhere(None, f, m), at, TH, N)
        I = interp(m)
        n = L.rsize()
        leaves = (TH - at) * L.n
        T0 = {}
        for i in range(n):
            T0[i] = var2("T", i) if i < leaves else (RL.var("leaf[%d]" % (i - leaves)), 0.0)
        T = Obj("T", 16 * n, "input", lambda o, s: T0[o // 16][o % 16 // 8] if s == 8 else None, 8)
        sigma = RL.var("sigma")
        kids = []

        def recurse(I, st, ins, args):
            side = {L.off * 16: "left", (L.off + L.h) * 16: "right"}.get(args[0].off if type(args[0]) is Ptr and args[0].obj is T else None)
            if L.need("normalisation visits both children", side is not None and side not in kids, lambda: "it goes on at %r" % (args[0],)):
                kids.append(side)
                L.same("every leaf is normalised with the sigma given", args[1], sigma, "sigma passed on")
                for k in range(L.h):
                    L.putc(I, st, args[0], (TH - at - 1) * L.n + k, var2(side, k))
            return st, None
        if N > 2:
            I.icp[L.find(r"^(\w+ )*void falcon_tree::normalize_tree<%dul, %dul, %dul>\(", at + 1).name] = recurse
        st, _ = I.call(f, [P(T), sigma], State())
        if N > 2:
            L.need("normalisation visits both children", sorted(kids) == ["left", "right"], lambda: "it only visits %s" % kids)
        bad = None
        for i in range(n):
            v = L.cplx(I, st, P(T), i)
            if i < leaves:
                want = T0[i]
                # places of other nodes' subtrees lie between
                if not L.is_([v], [want]):
                    bad = bad or ("element %d is changed to %s" % (i, show(v[0])))
            elif N > 2:
                k = i - leaves
                want = var2("left", k) if k < L.h else var2("right", k - L.h)
                if k < N and not L.is_([v], [want]):
                    bad = bad or ("leaf %d is changed to %s" % (k, show(v[0])))
        L.need("normalisation changes leaves only", bad is None, lambda: bad)
        if N == 2:
            for k in range(2):
                v = L.cplx(I, st, P(T), leaves + k)
                L.same("a leaf becomes sigma / sqrt(leaf)", v[0], RL.div(sigma, RL.fn("sqrt", T0[leaves + k][0])), "leaf %d" % k)
        ctx.obligations(I, NOUB, "normalize_tree: no undefined behaviour")
        ctx.took(I)
    return go


def gram_matrix(m, N):
    def go(ctx):
        fresh_domains()
        rex.reset()
        f = func(m, r"^void keygen::compute_gram_matrix<%dul>\(" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        L = Level(ctx, m, N.bit_length() - 1, 0)
        L.w = w
        I = interp(m)
        I.canon = rex.name
        B, G = cplx_in("B", 4 * N), out("G", 64 * N)
        st, _ = I.call(f, [P(B), P(G)], State())
        b = [[var2("B", j * N + i) for i in range(N)] for j in range(4)]
        for i in range(N):
            x = [b[j][i] for j in range(4)]
            g00 = cadd(cmul(x[0], conj(x[0])), cmul(x[1], conj(x[1])))
            g01 = cadd(cmul(x[0], conj(x[2])), cmul(x[1], conj(x[3])))
            g11 = cadd(cmul(x[2], conj(x[2])), cmul(x[3], conj(x[3])))
            for j, want in enumerate((g00, g01, conj(g01), g11)):
                if not L.judge("the Gram matrix is B * adj(B)", [L.cplx(I, st, P(G), j * N + i)], [want], "block %d, element %d:" % (j, i)):
                    return
        ctx.obligations(I, NOUB, "compute_gram_matrix: no undefined behaviour")
        ctx.took(I)
    return go


def p18(ctx):
    m = module()
    ctx.assume = ["floating-point rounding is not modelled: doubles are read as real numbers", "splitting is as P09 establishes",
                  "the matrix decomposed is self-adjoint (the Gram matrix is, and the step analysed keeps it so)"]
    jobs = [gram_matrix(m, N) for N in (1024, 512)]
    for TH, at in levels():
        if at < TH:
            jobs += [build(m, TH, at), normalise(m, TH, at)]
    ctx.fork(jobs)
    ctx.minimum("a node holds L10 = G10 / G00", 2 * 3000)


# ------------------------------------------------------------------- P19
class Sample(Level):
    def start(self, I):
        self.known = {"t0": [var2("t0", i) for i in range(self.N)], "t1": [var2("t1", i) for i in range(self.N)]}
        self.split_of = {}
        self.calls = []

    def split(self, I, st, ins, args):
        f, a, b = args[:3]
        v = self.vec(I, st, f, self.N)
        nm = next((x for x, want in self.known.items() if self.is_(v, want)), None)
        if nm is None:
            if "z1" in self.known:
                self.judge("the left subtree samples around t0 + (t1 - z1) * L10", v, self.known["t0'"], "target")
                nm = "t0'"
            else:
                self.judge("the right subtree samples around t1", v, self.known["t1"], "target")
                nm = "t1"
        for i in range(self.h):
            self.putc(I, st, a, i, var2(nm + ".even", i))
            self.putc(I, st, b, i, var2(nm + ".odd", i))
        return st, None

    def merge(self, I, st, ins, args):
        a, b, f = args[:3]
        va, vb = self.vec(I, st, a, self.h), self.vec(I, st, b, self.h)
        nm = None
        for k in ("z0", "z1"):
            if self.is_(va, [var2(k + ".even", i) for i in range(self.h)]) and self.is_(vb, [var2(k + ".odd", i) for i in range(self.h)]):
                nm = k
        if nm is None:
            k = "z0" if "z1" in self.known else "z1"
            ok = self.judge("the halves sampled are merged", va, [var2(k + ".even", i) for i in range(self.h)], "first half of " + k)
            ok and self.judge("the halves sampled are merged", vb, [var2(k + ".odd", i) for i in range(self.h)], "second half of " + k)
            nm = k
        else:
            self.need("the halves sampled are merged", True, "")
        for i in range(self.N):
            self.putc(I, st, f, i, var2(nm, i))
        if nm == "z1":
            self.learn()
        return st, None

    def learn(self):
        self.known["z1"] = [var2("z1", i) for i in range(self.N)]
        self.known["t0'"] = [cadd(self.known["t0"][i], cmul(cadd(self.known["t1"][i], self.known["z1"][i], -1.0), var2("T", i))) for i in range(self.N)]

    def recurse(self, I, st, ins, args):
        t0, t1, Tp, smin, z0, z1, rng = args[:7]
        side = {self.off * 16: ("t0'", "z0"), (self.off + self.h) * 16: ("t1", "z1")}.get(Tp.off if type(Tp) is Ptr and Tp.obj is self.T else None)
        if not self.need("each half is sampled with its own subtree", side is not None, lambda: "sampling goes on at %r" % (Tp,)):
            side = ("t0'", "z0") if self.calls else ("t1", "z1")
        src, dst = side
        self.need("each half is sampled once", dst not in self.calls, lambda: "%s is sampled twice" % dst)
        self.calls.append(dst)
        for half, p in (("even", t0), ("odd", t1)):
            self.judge("each half is sampled with its own subtree", self.vec(I, st, p, self.h), [var2("%s.%s" % (src, half), i) for i in range(self.h)], "%s half of the target of %s" % (half, dst))
        self.same("sigma_min is passed on", smin, self.smin, "sigma_min")
        self.need("randomness comes from the generator given", rng == self.rng, lambda: "the sampler draws from %r" % (rng,))
        for i in range(self.h):
            self.putc(I, st, z0, i, var2(dst + ".even", i))
            self.putc(I, st, z1, i, var2(dst + ".odd", i))
        return st, None

    def samplerz(self, I, st, ins, args):
        mu, sp, smin, rng = args[:4]
        k = len(self.calls)
        src = [j for j in (0, 1) if rex.equal(mu, RL.var("t%d[0].re" % j))]
        if self.need("a leaf samples integers around the real parts of t0 and t1", len(src) == 1, lambda: "the centre is %s" % show(mu)):
            self.need("a leaf samples integers around the real parts of t0 and t1", src[0] not in self.calls, lambda: "two samples are taken around t%d" % src[0])
            self.calls.append(src[0])
        self.same("a leaf samples with the standard deviation in the tree", sp, RL.var("T[0].re"), "sigma")
        self.same("sigma_min is passed on", smin, self.smin, "sigma_min")
        self.need("randomness comes from the generator given", rng == self.rng, lambda: "the sampler draws from %r" % (rng,))
        return st, D.atom("sample%s" % (src[0] if src else "?"), 32, slo=-100000, shi=100000)


def sample(m, TH, at):
    def go(ctx):
        fresh_domains()
        rex.reset()
        L = Sample(ctx, m, TH, at)
        N = L.N
        pat = r"^void ffsampling::ff_sampling<%dul, %dul, %dul>\("
        f = L.find(pat, at)
        L.w = "%s [level %d of %d, N=%d]" % (fwhere(None, f, m), at, TH, N)
        I = interp(m)
        t0, t1 = cplx_in("t0", N), cplx_in("t1", N)
        L.T = T = cplx_in("T", L.rsize())
        z0, z1 = out("z0", 16 * N), out("z1", 16 * N)
        rng = Obj("rng", 224, "input", None, 1)
        L.smin, L.rng = RL.var("sigma_min"), P(rng)
        L.start(I)
        if N > 1:
            for pt, h in ((r"^void fft::split_fft<%dul>\(", L.split), (r"^void fft::merge_fft<%dul>\(", L.merge)):
                I.icp[func(m, pt % (TH - at)).name] = h
            I.icp[L.find(pat, at + 1).name] = L.recurse
        else:
            I.icp[func(m, r"^samplerz::samplerz\(double, double, double, prng").name] = L.samplerz
        st, _ = I.call(f, [P(t0), P(t1), P(T), L.smin, P(z0), P(z1), P(rng)], State())
        if N > 1:
            L.need("both halves are sampled", sorted(L.calls) == ["z0", "z1"], lambda: "sampled are only %s" % L.calls)
            for nm, o in (("z0", z0), ("z1", z1)):
                L.judge("what is returned are the merged samples", L.vec(I, st, P(o), N), [var2(nm, i) for i in range(N)], nm)
        else:
            L.need("both halves are sampled", sorted(map(str, L.calls)) == ["0", "1"], lambda: "samples are only taken around %s" % L.calls)
            for k, o in enumerate((z0, z1)):
                v = L.cplx(I, st, P(o), 0)
                a = RL.single(v[0]) if type(v[0]) is R else None
                L.need("a leaf returns the two integers", a is not None and a.kind == "int" and str(a.args[0].args[0]) == "sample%d" % k and type(v[1]) is float and v[1] == 0, lambda: "z%d is %s + i*%s" % (k, show(v[0]), show(v[1])))
        ctx.obligations(I, NOUB, "ff_sampling: no undefined behaviour")
        ctx.took(I)
    return go


def p19(ctx):
    m = module()
    ctx.assume = ["floating-point rounding is not modelled: doubles are read as real numbers", "splitting, merging and integer sampling are as P09 and P17 establish"]
    ctx.fork([sample(m, TH, at) for TH, at in levels()])
    ctx.minimum("what is returned are the merged samples", 2 * 3000)
