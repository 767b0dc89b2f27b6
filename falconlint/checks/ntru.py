"""P15: solving the NTRU equation over the integers."""
import bigint as BG
import rex
from chk import *
from lib import *
from checks.signing import var2, cadd, cmul, conj, cdiv, NOUB

UB = tuple(k for k in NOUB if k != "overflow") + ("overflow",)


def zin(name, n, kind="cinput"):
    """array of n big integers"""
    def gen(off, size):
        if size == 8 and off % 8 == 0:
            return RL.var("%s[%d]" % (name, off // 8))
        return None
    return Obj(name, 8 * n, kind, gen, 8)


def zs(name, n):
    return [RL.var("%s[%d]" % (name, i)) for i in range(n)]


def inst(m, pat):
    """instances of a template: size -> function"""
    rx = re.compile(pat)
    r = {}
    for f in m.funcs.values():
        k = rx.search(f.dem)
        if k and "lambda" not in f.dem:
            r[int(k.group(1))] = f
    return r


import re  # noqa: E402

KAR = r"^[^=]*\bkaratsuba::karatsuba<(\d+)ul>\("
MUL = r"^[^=]*\bkaratsuba::karamul<(\d+)ul>\("
SOLVE = r"^[^=]*\bntru_gen::ntru_solve<(\d+)ul>\("
REDUCE = r"^[^=]*\bntru_gen::reduce<(\d+)ul>\("


def show(v):
    return RL.rshow(rex.expand(v), 4)[:200] if type(v) is R else "never written" if v is UNDEF else repr(v)


def getz(I, st, p, n):
    return [readd(I, st, p.obj, p.off + 8 * i) for i in range(n)]


def putz(I, st, p, vs):
    for i, v in enumerate(vs):
        I.write(st, p.obj, p.off + 8 * i, 8, v)


def acc(d, r, k=1.0):
    for mm, c in RL.lift(r).num.items():
        v = d.get(mm, 0.0) + k * c
        if v:
            d[mm] = v
        else:
            d.pop(mm, None)


def polymul(a, b, ring):
    """product of two coefficient lists, by definition; ring: modulo x^n + 1"""
    n = len(a)
    out_ = [{} for _ in range(n if ring else 2 * n)]
    for i, x in enumerate(a):
        if type(x) is float and x == 0:
            continue
        for j, y in enumerate(b):
            if type(y) is float and y == 0:
                continue
            k = i + j
            s = 1.0
            if ring and k >= n:
                k, s = k - n, -1.0
            p = RL.mul(x, y)
            if type(p) is R and p.den:
                raise Stop("division in a product")
            acc(out_[k], p, s)
    return [RL.norm(R(d)) for d in out_]


class Calls:
    """stand-in for ring multiplication: the product of two lists is a list of named numbers"""

    def __init__(self):
        self.key = {}
        self.calls = []
        self.exp = {}

    @staticmethod
    def sig(v):
        return ("f", v) if type(v) is float else (frozenset(v.num.items()), v.den) if type(v) is R else id(v)

    def mul(self, a, b):
        k = frozenset((tuple(map(self.sig, a)), tuple(map(self.sig, b))))
        i = self.key.get(k)
        if i is None:
            i = self.key[k] = len(self.calls)
            self.calls.append((a, b))
        if all(type(x) is float and x == 0 for x in a) or all(type(x) is float and x == 0 for x in b):
            return [0.0] * len(a)
        return zs("conv%d" % i, len(a))

    def expand(self, r):
        """r with the products written out"""
        if type(r) is not R:
            return r
        if r.den:
            return r
        if not any(self.isconv(x) for x in RL.atoms_of(r)):
            return r
        d = {}
        for mm, c in r.num.items():
            t = c
            for x, e in mm:
                y = self.isconv(x)
                b = self.full(y[0])[y[1]] if y else RL.of_atom(RL.ATOMS[x])
                for _ in range(e):
                    t = RL.mul(t, b)
            acc(d, t)
        return RL.norm(R(d))

    def full(self, i):
        if i not in self.exp:
            a, b = self.calls[i]
            self.exp[i] = polymul([self.expand(x) for x in a], [self.expand(x) for x in b], True)
        return self.exp[i]

    def isconv(self, x):
        a = RL.ATOMS[x]
        if a.kind == "in":
            k = re.match(r"conv(\d+)\[(\d+)\]$", str(a.args[0]))
            if k:
                return int(k.group(1)), int(k.group(2))
        return None

    def same(self, ctx, rule, a, b, w, what):
        if type(a) in (R, float) and type(b) in (R, float):
            if RL.equal(a, b):
                return ctx.need(rule, True, w, "")
            a2, b2 = self.expand(a), self.expand(b)
            if RL.equal(a2, b2):
                return ctx.need(rule, True, w, "")
            return ctx.need(rule, False, w, lambda: "%s is %s, must be %s" % (what, show(a2), show(b2)))
        return ctx.need(rule, False, w, lambda: "%s is %s" % (what, show(a)))

    def handler(self, n):
        def go(I, st, ins, args):
            if I.m.funcs[ins_callee(ins)].ret.k == "void":
                ret, p, q = args[:3]
                v = self.mul(getz(I, st, p, n), getz(I, st, q, n))
                putz(I, st, ret, v)
                return st, None
            p, q = args[:2]
            v = self.mul(getz(I, st, p, n), getz(I, st, q, n))
            return st, v[0] if n == 1 else tuple(v)
        return go


def ins_callee(ins):
    return ins.x


# ------------------------------------------------------------ multiplication
def runz(I, f, args, n, st=None):
    """call a function that returns n big integers"""
    st = st or State()
    if f.ret.k == "void":
        r = out("ret", 8 * n)
        st, _ = I.call(f, [P(r)] + args, st)
        return st, getz(I, st, P(r), n)
    st, v = I.call(f, args, st)
    return st, [v] if n == 1 else list(v)


def kara(m, fs, n):
    def go(ctx):
        fresh_domains()
        f = fs[n]
        w = "%s [N=%d]" % (fwhere(None, f, m), n)
        I = interp(m)
        BG.install(I)
        I.maxtrip = 1 << 20
        if n // 2 in fs and n > 1:
            h = fs[n // 2]

            def half(I, st, ins, args):
                if h.ret.k == "void":
                    v = polymul(getz(I, st, args[1], n // 2), getz(I, st, args[2], n // 2), False)
                    putz(I, st, args[0], v)
                    return st, None
                return st, tuple(polymul(getz(I, st, args[0], 1), getz(I, st, args[1], 1), False))
            I.icp[h.name] = half
        a, b = zin("a", n), zin("b", n)
        st, r = runz(I, f, [P(a), P(b)], 2 * n)
        want = polymul(zs("a", n), zs("b", n), False)
        for k in range(2 * n):
            if not ctx.need("karatsuba is polynomial multiplication, assuming it for half the size", type(r[k]) in (R, float) and RL.equal(r[k], want[k]), w, lambda: "coefficient %d is %s, must be %s" % (k, show(r[k]), show(want[k]))):
                break
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


def kmul(m, fs, ks, n):
    def go(ctx):
        fresh_domains()
        f = fs[n]
        w = "%s [N=%d]" % (fwhere(None, f, m), n)
        I = interp(m)
        BG.install(I)
        full = None
        if n in ks:
            h = ks[n]

            def kar(I, st, ins, args):
                v = h.ret.k == "void"
                x, y = args[1:3] if v else args[:2]
                xs, ys = getz(I, st, x, n), getz(I, st, y, n)
                A, B = zs("a", n), zs("b", n)
                ok = all(RL.equal(p, q) for p, q in zip(xs + ys, A + B)) or all(RL.equal(p, q) for p, q in zip(xs + ys, B + A))
                ctx.need("karamul multiplies its arguments", ok, w, lambda: "it multiplies %s by %s" % ([show(z) for z in xs[:3]], [show(z) for z in ys[:3]]))
                p = zs("ab", 2 * n)
                if v:
                    putz(I, st, args[0], p)
                    return st, None
                return st, tuple(p)
            I.icp[h.name] = kar
        a, b = zin("a", n), zin("b", n)
        st, r = runz(I, f, [P(a), P(b)], n)
        ab = zs("ab", 2 * n)
        for k in range(n):
            want = RL.sub(ab[k], ab[n + k])
            good = type(r[k]) in (R, float) and RL.equal(r[k], want)
            if not good:
                full = full or polymul(zs("a", n), zs("b", n), True)
                good = type(r[k]) in (R, float) and RL.equal(r[k], full[k])
            if not ctx.need("karamul reduces the product modulo x^N + 1", good, w, lambda: "coefficient %d is %s, must be %s" % (k, show(r[k]), show(want))):
                break
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


# ------------------------------------------------------------------- solving
def level(m, fs, n, solved):
    """one level of the recursion"""
    def go(ctx):
        fresh_domains()
        f = fs[n]
        w = "%s [N=%d]" % (fwhere(None, f, m), n)
        I = interp(m)
        BG.install(I)
        C = Calls()
        for k, g in inst(m, MUL).items():
            I.icp[g.name] = C.handler(k)
        A, B = zs("f", n), zs("g", n)
        h = n // 2
        calls = [0]

        def norm(a):
            """N(a) = a(x) a(-x) as a polynomial in x^2"""
            e, o = a[::2], a[1::2]
            ee, oo = C.mul(e, e), C.mul(o, o)
            return [RL.add(ee[i], oo[i - 1], -1.0) if i else RL.add(ee[0], oo[h - 1]) for i in range(h)]

        def sub(I, st, ins, args):
            ret, p, q = args[:3]
            calls[0] += 1
            for nm, ptr, x in (("f", p, A), ("g", q, B)):
                v = getz(I, st, ptr, h)
                for i, want in enumerate(norm(x)):
                    if not C.same(ctx, "the smaller problem is that of the norms of f and g", v[i], want, w, "coefficient %d of the norm of %s" % (i, nm)):
                        break
            if solved:
                putz(I, st, ret, zs("F'", h) + zs("G'", h))
            else:
                putz(I, st, ret, zs("junk", 2 * h))
            I.write(st, ret.obj, ret.off + 16 * h, 4, 0 if solved else 1)
            return st, None
        I.icp[fs[h].name] = sub

        def lifted(x):
            return [x[i // 2] if i % 2 == 0 else 0.0 for i in range(n)]

        def conjg(x):
            return [RL.neg(v) if i % 2 else v for i, v in enumerate(x)]
        red = inst(m, REDUCE).get(n)
        if red is None:
            raise Anchor("no reduce<%d>" % n)
        rc = [0]

        def reduce(I, st, ins, args):
            pf, pg, pF, pG = args[:4]
            rc[0] += 1
            for nm, ptr, want in (("f", pf, A), ("g", pg, B), ("F = F'(x^2) g(-x)", pF, C.mul(lifted(zs("F'", h)), conjg(B))), ("G = G'(x^2) f(-x)", pG, C.mul(lifted(zs("G'", h)), conjg(A)))):
                v = getz(I, st, ptr, n)
                for i in range(n):
                    if not C.same(ctx, "the solution is lifted by F = F'(x^2) g(-x), G = G'(x^2) f(-x)", v[i], want[i], w, "coefficient %d of %s" % (i, nm)):
                        break
            putz(I, st, pF, zs("F~", n))
            putz(I, st, pG, zs("G~", n))
            return st, None
        I.icp[red.name] = reduce
        ret = out("ret", 16 * n + 8)
        st, _ = I.call(f, [P(ret), P(zin("f", n)), P(zin("g", n))], State())
        status = read(I, st, ret, 16 * n, 32)
        ctx.need("every level solves one smaller problem", calls[0] == 1, w, "the smaller problem is solved %d times" % calls[0])
        if not solved:
            ctx.need("a level without a solution fails", type(status) is int and status != 0, w, lambda: "the status is %s although the smaller problem has no solution" % D.show(status, 2))
        else:
            ctx.need("a level with a solution succeeds", status == 0 and type(status) is int, w, lambda: "the status is %s" % D.show(status, 2))
            names = ("F~", "G~") if rc[0] else None
            for k in range(2):
                want = zs(names[k], n) if rc[0] else (C.mul(lifted(zs("F'", h)), conjg(B)), C.mul(lifted(zs("G'", h)), conjg(A)))[k]
                v = getz(I, st, P(ret, 8 * n * k), n)
                for i in range(n):
                    if not C.same(ctx, "the reduced solution is returned", v[i], want[i], w, "coefficient %d of %s" % (i, "FG"[k])):
                        break
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


def bottom(m, fs, g):
    """degree 0: the extended gcd"""
    def go(ctx):
        fresh_domains()
        f = fs[1]
        w = "%s [N=1]" % fwhere(None, f, m)
        I = interp(m)
        names = {"a": 3, "b": 5, "gcd": g, "f[0]": 2, "g[0]": 7}
        reps = BG.Reps(lambda a: names.get(str(a.args[0])) if a.kind == "in" else None)
        BG.install(I, reps)
        A, B = RL.var("f[0]"), RL.var("g[0]")

        def xg(I, st, ins, args):
            ret, x, y = args[:3]
            X, Y = getz(I, st, x, 1)[0], getz(I, st, y, 1)[0]
            ok = RL.equal(X, A) and RL.equal(Y, B)
            sw = RL.equal(X, B) and RL.equal(Y, A)
            ctx.need("the gcd of f and g is taken", ok or sw, w, lambda: "it is taken of %s and %s" % (show(X), show(Y)))
            v = [RL.var("a"), RL.var("b"), RL.var("gcd")]
            if sw:
                v[0], v[1] = v[1], v[0]
            putz(I, st, ret, v)
            return st, None
        x = [z for z in m.funcs.values() if re.search(r"\bntru_gen::xgcd\(", z.dem)]
        if len(x) != 1:
            raise Anchor("no ntru_gen::xgcd")
        I.icp[x[0].name] = xg

        def gcdext(I, st, ins, args):
            putz(I, st, args[0], [RL.var("gcd")])
            putz(I, st, args[1], [RL.var("a")])
            putz(I, st, args[2], [RL.var("b")])
            return st, None
        I.icp["@fl_mpz_gcdext"] = gcdext
        ret = out("ret", 24)
        st, _ = I.call(f, [P(ret), P(zin("f", 1)), P(zin("g", 1))], State())
        status = read(I, st, ret, 16, 32)
        if status != 0:
            ctx.need("coprime numbers have a solution", g != 1, w, "no solution although the gcd is 1")
            return
        F, G = getz(I, st, P(ret), 2)
        # f*G - g*F = q * gcd, for all f, g, a, b with a*f + b*g = gcd
        d = RL.sub(RL.mul(A, G), RL.mul(B, F))
        a, b = RL.var("a"), RL.var("b")
        want = RL.mul(float(Q), RL.add(RL.mul(a, A), RL.mul(b, B)))
        ctx.need("f G - g F = q at degree 0", g == 1 and RL.equal(d, want), w, lambda: "where a*f + b*g = %d, f*G - g*F is %s" % (g, show(d)))
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


def gcd(m, steps):
    """a*x + b*y = g after any number of steps; it ends with a remainder of zero"""
    def go(ctx):
        fresh_domains()
        x = [z for z in m.funcs.values() if re.search(r"\bntru_gen::xgcd\(", z.dem)]
        if len(x) != 1:
            raise Anchor("no ntru_gen::xgcd")
        f = x[0]
        w = fwhere(None, f, m)
        # consecutive Fibonacci-like numbers: `steps` divisions
        u, v = 5, 0
        for k in range(steps):
            u, v = (k % 3 + 1) * u + v, u
        if steps % 2:
            u = -u
        I = interp(m)
        reps = BG.Reps(lambda a: {"x": u, "y": v}.get(str(a.args[0])) if a.kind == "in" else None)
        BG.install(I, reps)
        ext = []

        def gcdext(I, st, ins, args):
            ext.append(args[3:5])
            for p, nm in zip(args[:3], ("gcd", "s", "t")):
                putz(I, st, p, [RL.var(nm)])
            return st, None
        I.icp["@fl_mpz_gcdext"] = gcdext
        px, py = out("x", 8), out("y", 8)
        st = State()
        X, Y = RL.var("x"), RL.var("y")
        putz(I, st, P(px), [X])
        putz(I, st, P(py), [Y])
        st, r = runz(I, f, [P(px), P(py)], 3, st)
        if ext:
            # the library's own
            sg = [RL.var(z) for z in ("s", "t", "gcd")]
            ok = len(ext) == 1 and RL.equal(ext[0][0], X) and RL.equal(ext[0][1], Y) and all(RL.equal(p, q) for p, q in zip(r, sg))
            ctx.need("a*x + b*y = g for the triple (a, b, g) returned", ok, w, "it does not return what the library computes")
            return
        d = RL.add(RL.mul(r[0], X), RL.mul(r[1], Y))
        ctx.need("a*x + b*y = g for the triple (a, b, g) returned", RL.equal(d, r[2]), w, lambda: "after %d steps a*x + b*y is %s, g is %s" % (steps, show(d), show(r[2])))
        import math
        try:
            gv = int(reps.val(r[2]))
            ctx.need("g is the greatest common divisor", abs(gv) == math.gcd(u, v), w, lambda: "for x = %d, y = %d it is %d" % (u, v, gv))
        except BG.NoRep:
            pass
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


# ------------------------------------------------------------------ reduction
def blen(v):
    return (abs(v).bit_length() + 7) // 8 * 8


def red(m, fs, n, hist):
    """hist: (length of f, g; index, which; length of F, G; index, which; iterations; last ends
    because the quotient is zero?)"""
    def go(ctx):
        fresh_domains()
        rex.reset()
        f = fs[n]
        lf, pf, wf, lF, pF, wF, its, zero = hist
        w = "%s [N=%d]" % (fwhere(None, f, m), n)
        I = interp(m)
        I.maxtrip = 1 << 20
        lg = n.bit_length() - 1

        def big(nm, i, top, length):
            """representative: the number at `top` alone has the full length"""
            l = length if i == top else max(length - 9, 0)
            if l == 0:
                return 0
            h = hash((nm, i, 31)) if False else (i * 2654435761 + len(nm) * 97 + ord(nm[0])) & 0xFFFFFFFF
            v = (1 << (l - 1)) | (h & ((1 << (l - 1)) - 1))
            return -v if h >> 5 & 1 else v
        tops = {"f": (pf if wf == "f" else -1, lf), "g": (pf if wf == "g" else -1, lf), "F": (pF if wF == "F" else -1, lF), "G": (pF if wF == "G" else -1, lF)}
        cur = {"F": zs("F", n), "G": zs("G", n)}
        seqs = []            # what was transformed
        ifts = []
        C = Calls()
        convs = {}

        def rep(a):
            if a.kind != "in":
                return None
            s = str(a.args[0])
            k = re.match(r"([fgFG])\[(\d+)\]$", s)
            if k:
                return big(k.group(1), int(k.group(2)), *tops[k.group(1)])
            k = re.match(r"ifft(\d+)\[(\d+)\]\.re$", s)
            if k:
                it, i = int(k.group(1)), int(k.group(2))
                if zero and it == its - 1:
                    return Fraction(1, 3) if i % 2 else Fraction(-1, 4)
                return Fraction(5, 2) if i == (it * 7 + pF) % n else 0
            k = re.match(r"conv(\d+)\[(\d+)\]$", s)
            if k:
                c = int(k.group(1))
                if c not in convs:
                    x, y = C.calls[c]
                    xs, ys = [reps.val(z) for z in x], [reps.val(z) for z in y]
                    if sum(1 for z in ys if z) > sum(1 for z in xs if z):
                        xs, ys = ys, xs
                    r = [0] * n
                    for j, v in enumerate(ys):
                        if v:
                            for i, u in enumerate(xs):
                                if i + j < n:
                                    r[i + j] += u * v
                                else:
                                    r[i + j - n] -= u * v
                    convs[c] = r
                return convs[c][int(k.group(2))]
            return None
        reps = BG.Reps(rep)
        BG.install(I, reps, lambda ins, t: ctx.need("numbers are shifted by the difference of the lengths", False, "%s" % I.where(ins), t))
        for k, g in inst(m, MUL).items():
            I.icp[g.name] = C.handler(k)

        def fft(I, st, ins, args):
            p = args[0]
            v = []
            for i in range(n):
                re_, im = readd(I, st, p.obj, p.off + 16 * i), readd(I, st, p.obj, p.off + 16 * i + 8)
                if not (type(im) is float and im == 0):
                    ctx.need("reduction transforms integers", False, w, lambda: "element %d has imaginary part %s" % (i, show(im)))
                v.append(re_)
            k = len(seqs)
            seqs.append(v)
            for i in range(n):
                a, b = var2("^%d" % k, i)
                I.write(st, p.obj, p.off + 16 * i, 8, a)
                I.write(st, p.obj, p.off + 16 * i + 8, 8, b)
            return st, None

        lens = []

        def find(xs):
            for k in range(len(seqs) - 1, -1, -1):
                if all(type(a) in (R, float) and RL.equal(a, b) for a, b in zip(seqs[k], xs)):
                    return k
            return None

        def shifted(xs, s):
            return [RL.fn("fdiv2", x, float(s)) if s and type(x) is R else x if not s else float(int(x) >> s) for x in xs]

        def ifft(I, st, ins, args):
            p = args[0]
            k = len(ifts)
            if k > its + 2:
                raise Endless()
            L0 = max([53] + [blen(int(reps.val(x))) for x in zs("f", n) + zs("g", n)])
            L1 = max([53] + [blen(int(reps.val(x))) for x in cur["F"] + cur["G"]])
            lens.append((L0, L1))
            rule = "the quotient is (F adj f + G adj g) / (f adj f + g adj g), to 53 bits"
            ids = {}
            for nm, xs, s in (("f", zs("f", n), L0 - 53), ("g", zs("g", n), L0 - 53), ("F", cur["F"], L1 - 53), ("G", cur["G"], L1 - 53)):
                ids[nm] = find(shifted(xs, s))
                if not ctx.need(rule, ids[nm] is not None, w, lambda: "the top 53 of %d bits of %s are not transformed in iteration %d, but e.g. %s" % (s + 53, nm, k, [show(q[0]) for q in seqs])):
                    raise Done()
            for i in range(n):
                x = readd(I, st, p.obj, p.off + 16 * i), readd(I, st, p.obj, p.off + 16 * i + 8)
                z = {c: var2("^%d" % ids[c], i) for c in "fgFG"}
                num = cadd(cmul(z["F"], conj(z["f"])), cmul(z["G"], conj(z["g"])))
                den = cadd(cmul(z["f"], conj(z["f"])), cmul(z["g"], conj(z["g"])))
                want = cdiv(num, den)
                for part, u, v in zip(("re", "im"), x, want):
                    good = rex.equal(u, v)
                    if not ctx.need(rule, good, w, lambda: "%s of element %d is %s, must be %s" % (part, i, show(u), show(v)), und=not good and type(u) in (R, float) and rex.differ(u, v) is None):
                        raise Done()
            for i in range(n):
                a, b = var2("ifft%d" % k, i)
                I.write(st, p.obj, p.off + 16 * i, 8, a)
                I.write(st, p.obj, p.off + 16 * i + 8, 8, b)
            # what F and G become
            q = [RL.fn("round", var2("ifft%d" % k, i)[0]) for i in range(n)]
            ifts.append(q)
            if any(reps.val(z) for z in q):
                s = 2.0 ** (L1 - L0)
                for nm, b in (("F", "f"), ("G", "g")):
                    c = C.mul(zs(b, n), q)
                    cur[nm] = [RL.add(x, y, -s) for x, y in zip(cur[nm], c)]
            return st, None
        I.icp[func(m, r"^void fft::fft<%dul>" % lg).name] = fft
        I.icp[func(m, r"^void fft::ifft<%dul>" % lg).name] = ifft
        oF, oG = zin("F", n, "input"), zin("G", n, "input")
        of, og = zin("f", n), zin("g", n)
        try:
            st, _ = I.call(f, [P(of), P(og), P(oF), P(oG)], State())
        except Done:
            return
        except Endless:
            ctx.need("reduction ends", False, w, "it goes on although the quotient is zero")
            return
        for nm, o in (("F", oF), ("G", oG)):
            v = getz(I, st, P(o), n)
            for i in range(n):
                if not C.same(ctx, "reduction subtracts the same multiple of f and g from F and G", v[i], cur[nm][i], w, "coefficient %d of %s after %d iterations" % (i, nm, len(ifts))):
                    break
        L0 = max([53] + [blen(int(reps.val(x))) for x in zs("f", n) + zs("g", n)])
        L1 = max([53] + [blen(int(reps.val(x))) for x in cur["F"] + cur["G"]])
        last0 = ifts and not any(reps.val(z) for z in ifts[-1])
        ctx.need("reduction goes on until the quotient is zero or F, G are shorter than f, g", bool(last0) or L1 < L0, w, lambda: "it ends after %d iterations with numbers of %d bits (f, g: %d) and a quotient that is not zero" % (len(ifts), L1, L0))
        ctx.obligations(I, NOUB, "big integers: no undefined behaviour")
        ctx.took(I)
    return go


from fractions import Fraction  # noqa: E402


class Done(Exception):
    pass


class Endless(Exception):
    pass


def hists(n, tier):
    ps = list(range(n)) if n <= 4 or tier == "thorough" and n <= 32 else sorted({0, 1, n // 2 - 1, n // 2, n - 2, n - 1})
    ls = [(3, 3), (8, 20), (9, 53), (10, 54), (30, 56), (31, 57), (53, 60), (54, 61), (56, 64), (57, 65), (60, 200), (64, 100), (65, 300), (300, 700), (900, 1500), (500, 500), (17, 800)]
    r = []
    for j, p in enumerate(ps):
        for k, (wf, wF) in enumerate((("f", "F"), ("g", "G"))):
            lf, lF = ls[(j * 2 + k) % len(ls)]
            r.append((lf, p, wf, lF, ps[(j + 1) % len(ps)], wF, 1 + (j + k) % 3, True))
    # F, G shorter than f, g
    r.append((300, ps[-1], "g", 200, ps[0], "G", 0, False))
    for j, (lf, lF) in enumerate(ls):
        if n <= 8:
            r.append((lf, ps[j % len(ps)], "fg"[j % 2], lF, ps[j // 2 % len(ps)], "GF"[j % 2], 2, True))
    if n > 64 and tier != "thorough":
        r = r[:: 4] + r[-1:]
    return r


def p15(ctx):
    m = module()
    ctx.assume = ["GNU MP computes what its manual says; its integers never run out of memory", "floating-point rounding is not modelled: doubles are read as real numbers",
                  "transforms are as P09 establishes", "numbers to be reduced differ by less than 900 bits in length from one iteration to the next"]
    ks, ms, ss, rs = (inst(m, p) for p in (KAR, MUL, SOLVE, REDUCE))
    jobs = []
    for n in sorted(ks, reverse=True):
        jobs.append(kara(m, ks, n))
    for n in sorted(ss, reverse=True):
        if n > 1:
            for s in (True, False):
                jobs.append(level(m, ss, n, s))
    for n in sorted(rs, reverse=True):
        hs = hists(n, ctx.tier)
        if n <= 64:
            def many(n=n, hs=hs):
                def go(c):
                    for h in hs:
                        red(m, rs, n, h)(c)
                        if c.viol:
                            return
                return go
            jobs.append(many())
        else:
            jobs += [red(m, rs, n, h) for h in hs]
    jobs += [kmul(m, ms, ks, n) for n in sorted(ms)]
    jobs += [bottom(m, ss, g) for g in (1, 2, 0, -1, 7)]
    jobs += [gcd(m, k) for k in range(9)]
    ctx.fork(jobs)
    ctx.minimum("karatsuba is polynomial multiplication, assuming it for half the size", 2 * 1023)
    ctx.minimum("karamul reduces the product modulo x^N + 1", 1023)
    ctx.minimum("the reduced solution is returned", 2 * 2046)
    ctx.minimum("reduction subtracts the same multiple of f and g from F and G", 2 * 2046)
    ctx.minimum("f G - g F = q at degree 0", 1)
    ctx.minimum("a*x + b*y = g for the triple (a, b, g) returned", 9)
