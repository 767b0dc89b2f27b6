"""P10, P11, P12: what a signature is made of, and when it is emitted."""
import rex
from chk import *
from lib import *

NS = (512, 1024)
BOUND = {512: 34034726, 1024: 70265242}
SLEN = {512: 666, 1024: 1280}
SIGMIN = {512: 1.277833697, 1024: 1.298280334}
SIGMA = {512: 165.736617183, 1024: 168.388571447}
NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite")
ONE = {(): 1.0}


def var2(name, i):
    return RL.var("%s[%d].re" % (name, i)), RL.var("%s[%d].im" % (name, i))


def cadd(a, b, k=1.0):
    return RL.add(a[0], b[0], k), RL.add(a[1], b[1], k)


def cmul(a, b):
    return RL.sub(RL.mul(a[0], b[0]), RL.mul(a[1], b[1])), RL.add(RL.mul(a[0], b[1]), RL.mul(a[1], b[0]))


def conj(a):
    return a[0], RL.neg(a[1])


def cdiv(a, b):
    n = RL.add(RL.mul(b[0], b[0]), RL.mul(b[1], b[1]))
    p = cmul(a, conj(b))
    return RL.div(p[0], n), RL.div(p[1], n)


def sq(a):
    return RL.add(RL.mul(a[0], a[0]), RL.mul(a[1], a[1]))


class Attempt:
    def __init__(self, k):
        self.k = k
        self.normed = False      # the full norm was compared
        self.accept = None       # outcome the analysed history gives this attempt
        self.s2 = False
        self.packed = None


class Model:
    """stand-ins for the routines other properties are about; every call is checked against
    what signing must pass"""

    def __init__(self, ctx, m, N, history, w):
        self.ctx, self.m, self.N, self.w = ctx, m, N, w
        self.lg = N.bit_length() - 1
        self.history = history    # outcome wanted per attempt: "A", "R" (norm), "C" (does not fit)
        self.at = []
        self.nrnd = 0
        self.hashed = []
        self.iffts = []           # inputs of the inverse transforms
        self.B = None             # (j, i) -> (re, im)
        self.T = None             # i -> name of the tree's elements
        self.rng = None
        self.flt = {}
        self.odd = []
        self.dec = 1
        self.fl = {}
        self.emitted = False

    # ------------------------------------------------------------ judging
    def need(self, rule, ok, msg, und=False):
        return self.ctx.need(rule, ok, self.w, msg, und)

    def same(self, rule, a, b, what):
        if rex.equal(a, b):
            return self.need(rule, True, "")
        d = rex.differ(a, b)
        return self.need(rule, False, lambda: "%s is %s, must be %s%s" % (what, show(a), show(b), "" if d is None else " (e.g. %.6g instead of %.6g)" % d), und=d is None and type(a) in (R, float))

    def cplx(self, I, st, p, i):
        return readd(I, st, p.obj, p.off + 16 * i), readd(I, st, p.obj, p.off + 16 * i + 8)

    def putc(self, I, st, p, i, v):
        I.write(st, p.obj, p.off + 16 * i, 8, v[0])
        I.write(st, p.obj, p.off + 16 * i + 8, 8, v[1])

    # ---------------------------------------------------------- stand-ins
    def read(self, I, st, ins, args):
        rng, dst, n = args[:3]
        if self.rng is not None:
            self.need("randomness comes from the generator given", rng == self.rng, lambda: "bytes are read from %r" % (rng,))
        if type(n) is not int:
            raise Stop("random bytes of unknown number")
        k = self.nrnd
        self.nrnd += 1
        if I.checkptr(st, dst, n, ins, "write"):
            for j in range(n):
                I.write(st, dst.obj, dst.off + j, 1, D.inbits(("rnd", k, j), 8, 8))
        return st, None

    def hash_to_point(self, I, st, ins, args):
        salt, slen, msg, mlen, c = args[:5]
        k = len(self.hashed)
        s = None
        if type(slen) is int and type(salt) is Ptr:
            I.checkptr(st, salt, slen, ins, "read")
            s = [read(I, st, salt.obj, salt.off + i, 8) for i in range(slen)]
        self.hashed.append((s, slen, msg, mlen))
        for i in range(self.N):
            I.write(st, c.obj, c.off + 2 * i, 2, D.atom("c%d[%d]" % (k, i), 16, ulo=0, uhi=Q - 1))
        return st, None

    def parse(self, v, i):
        """v as a combination of named sequences, at index i"""
        v = rex.expand(v)
        if type(v) is float:
            return {"": v} if v else {}
        if type(v) is not R or v.den:
            return None
        r = {}
        for mm, c in v.num.items():
            if mm == ():
                r[""] = c
                continue
            if len(mm) != 1 or mm[0][1] != 1:
                return None
            nm = self.seqname(RL.ATOMS[mm[0][0]], i)
            if nm is None:
                return None
            r[nm] = r.get(nm, 0.0) + c
        return r

    def seqname(self, a, i):
        if a.kind == "int":
            t = a.args[0]
            s = str(t.args[0]) if t.op == "atom" else ""
        elif a.kind == "in":
            s = str(a.args[0])
            if s.endswith(".re"):
                s = s[:-3]
        elif a.kind == "round":
            x = RL.single(a.args[0]) if type(a.args[0]) is R else None
            s = self.seqname(x, i) if x is not None else None
            return None if s is None else "round " + s
        else:
            return None
        return s[:-len("[%d]" % i)] if s.endswith("[%d]" % i) else None

    def fft(self, I, st, ins, args):
        p = args[0]
        ps = []
        for i in range(self.N):
            re, im = self.cplx(I, st, p, i)
            if re is UNDEF or im is UNDEF:
                self.need("transforms are applied to initialised data", False, "element %d is not written" % i)
                return st, None
            q = self.parse(re, i)
            z = rex.expand(im)
            if type(z) is not float or z != 0.0 or q is None:
                self.need("fft: input is understood", False, "element %d is %s + i*%s" % (i, show(re), show(im)), und=True)
                q = {"?%d" % I.bump(): 1.0}
            ps.append(q)
        if any(q != ps[0] for q in ps[1:]):
            k = next(i for i, q in enumerate(ps) if q != ps[0])
            self.need("transform arguments are combined uniformly", False, "element %d of an array passed to fft is %s, element 0 is %s" % (k, ps[k], ps[0]))
        for i in range(self.N):
            re, im = 0.0, 0.0
            for nm, c in sorted(ps[0].items()):
                x = var2("^" + nm, i)
                re, im = RL.add(re, x[0], c), RL.add(im, x[1], c)
            self.putc(I, st, p, i, (re, im))
        return st, None

    def ifft(self, I, st, ins, args):
        p = args[0]
        k = len(self.iffts)
        self.iffts.append([self.cplx(I, st, p, i) for i in range(self.N)])
        if any(x is UNDEF for v in self.iffts[-1] for x in v):
            self.need("transforms are applied to initialised data", False, "an inverse transform of an array that is not written")
        for i in range(self.N):
            self.putc(I, st, p, i, var2("ifft%d" % k, i))
        return st, None

    # the target and the sampled point ------------------------------------
    def target(self, i):
        c = var2("^c%d" % (len(self.hashed) - 1), i)
        t0, t1 = cmul(c, self.B(3, i)), cmul(c, self.B(1, i))
        k = 1.0 / Q
        return (RL.mul(t0[0], k), RL.mul(t0[1], k)), (RL.mul(t1[0], -k), RL.mul(t1[1], -k))

    def ff_sampling(self, I, st, ins, args):
        t0, t1, T, smin, z0, z1, rng = args[:7]
        k = len(self.at)
        a = Attempt(k)
        if k >= len(self.history) + 2:
            raise Stop("signing goes on after the last attempt of the history")
        a.accept = self.history[k] if k < len(self.history) else "A"
        self.at.append(a)
        self.need("sampling uses the standard deviation bound of the parameter set", type(smin) is float and abs(smin - SIGMIN[self.N]) < 1e-12, lambda: "sigma_min is %s, must be %s" % (show(smin), SIGMIN[self.N]))
        if self.rng is not None:
            self.need("randomness comes from the generator given", rng == self.rng, lambda: "the sampler draws from %r" % (rng,))
        for i in range((self.lg + 1) * self.N):
            x = self.cplx(I, st, T, i) if I.checkptr(st, Ptr(T.obj, I.addoff(T.off, 16 * i)), 16, ins, "read") else (None, None)
            w = var2(self.T, i)
            if not all(rex.equal(p, q) for p, q in zip(x, w)):
                self.need("sampling uses the key's Falcon tree", False, lambda: "element %d of the tree is %s, must be %s" % (i, show(x[0]), show(w[0])))
                break
        else:
            self.need("sampling uses the key's Falcon tree", True, "")
        bad = 0
        for i in range(self.N):
            for what, p, want in zip(("t0", "t1"), (t0, t1), self.target(i)):
                x = self.cplx(I, st, p, i)
                for part, u, v in zip(("re", "im"), x, want):
                    if bad < 3:
                        bad += not self.same("the target is (c, 0) * B^-1", u, v, "%s of %s[%d] in attempt %d" % (part, what, i, k))
        for i in range(self.N):
            self.putc(I, st, z0, i, var2("z0_%d" % k, i))
            self.putc(I, st, z1, i, var2("z1_%d" % k, i))
        return st, None

    def point(self, k, i):
        """(s0, s1) of attempt k at index i"""
        t0, t1 = self.target(i)
        a, b = cadd(t0, var2("z0_%d" % k, i), -1.0), cadd(t1, var2("z1_%d" % k, i), -1.0)
        return cadd(cmul(a, self.B(0, i)), cmul(b, self.B(2, i))), cadd(cmul(a, self.B(1, i)), cmul(b, self.B(3, i)))

    def squares(self, k):
        """expected terms of N * squared norm of attempt k, as values whose squares are summed"""
        r = []
        for i in range(self.N):
            for s in self.point(k, i):
                r += list(s)
        return r

    def isnorm(self, d):
        """d = scale * (bound - norm of attempt k)?  -> (k, scale) ; or a text; or None"""
        if type(d) is not R or d.den or not self.at:
            return None
        sqs, rest, c0 = [], False, 0.0
        for mm, c in d.num.items():
            if mm == ():
                c0 = c
            elif len(mm) == 1 and mm[0][1] == 2 and RL.ATOMS[mm[0][0]].kind == rex.KIND:
                sqs.append((mm[0][0], c))
            else:
                rest = True
        k = self.at[-1].k
        if rest or not sqs:
            return self.wholenorm(d)
        want = self.squares(k)
        idx = {}
        for j, x in enumerate(want):
            idx.setdefault(RL.sig(x), []).append(j)
        left = set(range(len(want)))
        scale = -sqs[0][1] * self.N
        if not scale:
            return None
        for x, c in sqs:
            e = rex.exp_atom(x)
            hit = None
            for j in idx.get(RL.sig(e), ()):
                if j in left and (RL.equal(e, want[j]) or RL.equal(RL.neg(e), want[j])):
                    hit = j
                    break
            if hit is None:
                return "a term of the norm is the square of %s" % show(rex.expand(RL.of_atom(RL.ATOMS[x])))
            if not abs(c + scale / self.N) <= 1e-9 * abs(scale / self.N):
                return "the terms of the norm have different weights"
            left.discard(hit)
        if left:
            j = min(left)
            return "coefficient %d of s%d is not part of the norm" % (j // 4, j // 2 % 2)
        if abs(c0 / scale - BOUND[self.N]) > 1e-6:
            return "the bound is %.17g, must be %d" % (c0 / scale, BOUND[self.N])
        return k, scale

    def wholenorm(self, d):
        """slow comparison without relying on named terms"""
        e = rex.expand(d)
        k = self.at[-1].k
        want = RL.const(0.0)
        acc = dict(want.num)
        for x in self.squares(k):
            for mm, c in RL.lift(RL.mul(x, x)).num.items():
                acc[mm] = acc.get(mm, 0.0) + c
        if type(e) is not R or e.den:
            return None
        key = max(acc, key=lambda z: abs(acc[z]))
        if key not in e.num:
            return None
        scale = -e.num[key] / acc[key] * self.N
        exp = {mm: -c * scale / self.N for mm, c in acc.items()}
        exp[()] = exp.get((), 0.0) + scale * BOUND[self.N]
        if RL.pnear({a: c for a, c in e.num.items() if a != ()}, {a: c for a, c in exp.items() if a != ()}) and abs(e.num.get((), 0.0) - exp[()]) < 1e-6 * abs(scale):
            return k, scale
        return None

    def fcmp(self, ins, t):
        """an undecided comparison of reals: give the outcome of the analysed history"""
        if type(t) is not T:
            return t
        neg = False
        x = t
        while x.op == "not":
            neg, x = not neg, x.args[0]
        if x.op in ("slt", "ult"):
            r = self.intcmp(x)
            if r is None:
                return t
            return int(r != neg)
        if x.op not in ("flt", "feq"):
            return t
        if x.op != "flt":
            self.odd.append("comparison %s" % D.show(t, 2)[:200])
            return 1
        d = x.args[0].r
        r = self.isnorm(d)
        if type(r) is not tuple:
            self.odd.append(r or "comparison of %s with 0" % show(d))
            # some other condition: let it be false
            return int(neg)
        k, scale = r
        acc = self.outcome(k)
        # x is  d < 0,  d = scale * (bound - norm)
        if scale > 0:
            v = not acc
        else:
            v = acc
            self.need("a signature of norm equal to the bound is allowed", False, "signatures whose squared norm is exactly the bound are thrown away")
        return int(v != neg)

    def outcome(self, k):
        a = self.at[k]
        a.normed = True
        return a.accept in "AC"

    def intcmp(self, x):
        """comparison of a norm that was converted to an integer"""
        p, q = x.args
        up = type(p) is int
        c, z = (p, q) if up else (q, p)
        if type(c) is not int or type(z) is not T or z.op != "fromreal":
            return None
        c = D.sgn(c, z.w) if x.op == "slt" else c
        d = RL.sub(float(c if up else c - 1), z.args[0].r)
        r = self.isnorm(d)
        if type(r) is not tuple or r[1] < 0:
            self.odd.append(r if type(r) is str else "comparison of %s" % D.show(x, 2)[:200])
            return None
        self.need("the norm is compared in a type that can hold it", z.w > 32, "the squared norm is converted to %d bits" % z.w)
        return self.outcome(r[0]) != up

    def compress(self, I, st, ins, args):
        s2, sig = args[:2]
        if not self.at:
            self.need("what is compressed is s2 of this attempt", False, "compression before sampling")
            return st, 0
        a = self.at[-1]
        k = a.k
        names = set()
        ok = True
        for i in range(self.N):
            v = read(I, st, s2.obj, s2.off + 4 * i, 32)
            want = None
            if type(v) is T and v.op == "fromreal":
                x = RL.single(v.args[0].r)
                if x is not None and x.kind == "round":
                    nm = self.seqname(x, i)
                    if nm is not None and nm.startswith("round ifft"):
                        want = int(nm[len("round ifft"):])
            if want is None:
                known = type(v) is int or v is UNDEF or type(v) is T and v.op == "fromreal"
                ok = self.need("s2 is the rounded inverse transform of s1", False, lambda: "coefficient %d compressed in attempt %d is %s" % (i, k, "never written" if v is UNDEF else D.show(v, 3)[:200]), und=not known)
                break
            names.add(want)
        if ok:
            self.need("s2 is the rounded inverse transform of s1", len(names) == 1, lambda: "coefficients of %d different transforms are mixed" % len(names))
            x = self.iffts[next(iter(names))]
            for i in range(self.N):
                want = self.point(k, i)[1]
                good = all(type(u) in (R, float) for u in x[i]) and all([self.same("s2 = tz0*B01 + tz1*B11 of this attempt", u, v, "element %d compressed in attempt %d" % (i, k)) for u, v in zip(x[i], want)])
                if not good:
                    break
            a.s2 = True
        if not (type(sig) is Ptr and type(sig.off) is int):
            raise Stop("signature compressed to %r" % (sig,))
        a.packed = a.accept != "C"
        n = SLEN[self.N]
        if I.checkptr(st, sig, n, ins, "write"):
            for j in range(41, n):
                I.write(st, sig.obj, sig.off + j, 1, D.inbits(("body", k, j), 8, 8))
        return st, int(a.packed)

    # key loading ---------------------------------------------------------
    def decode_skey(self, I, st, ins, args):
        self.skey = args[0]
        if self.dec:
            for nm, p, b in (("f", args[1], 31), ("g", args[2], 31), ("F", args[3], 127)):
                for i in range(self.N):
                    I.write(st, p.obj, p.off + 4 * i, 4, D.atom("%s[%d]" % (nm, i), 32, slo=-b, shi=b))
        return st, self.dec

    def ffldl(self, I, st, ins, args):
        g, Tp = args[:2]
        bad = False
        for i in range(self.N):
            if bad:
                break
            B = [self.B(j, i) for j in range(4)]
            g00 = cadd(cmul(B[0], conj(B[0])), cmul(B[1], conj(B[1])))
            g01 = cadd(cmul(B[0], conj(B[2])), cmul(B[1], conj(B[3])))
            g11 = cadd(cmul(B[2], conj(B[2])), cmul(B[3], conj(B[3])))
            for j, want in enumerate((g00, g01, conj(g01), g11)):
                x = self.cplx(I, st, g, j * self.N + i)
                for part, u, v in zip(("re", "im"), x, want):
                    bad = bad or not self.same("the tree is built from the Gram matrix B*adj(B)", u, v, "%s of element %d of block %d" % (part, i, j))
        for i in range((self.lg + 1) * self.N):
            self.putc(I, st, Tp, i, var2("ldl", i))
        return st, None

    def normalize(self, I, st, ins, args):
        Tp, sigma = args[:2]
        self.need("the tree is normalised with sigma of the parameter set", type(sigma) is float and abs(sigma - SIGMA[self.N]) < 1e-9, lambda: "sigma is %s, must be %s" % (show(sigma), SIGMA[self.N]))
        for i in range((self.lg + 1) * self.N):
            x = self.cplx(I, st, Tp, i)
            if not all(rex.equal(p, q) for p, q in zip(x, var2("ldl", i))):
                self.need("the tree normalised is the one built", False, lambda: "element %d is %s" % (i, show(x[0])))
                break
        for i in range((self.lg + 1) * self.N):
            self.putc(I, st, Tp, i, var2("T", i))
        return st, None

    def install(self, I):
        m, N, lg = self.m, self.N, self.lg
        for pat, h in ((r"^void hashing::hash_to_point<%dul>" % N, self.hash_to_point), (r"^void fft::fft<%dul>" % lg, self.fft), (r"^void fft::ifft<%dul>" % lg, self.ifft),
                       (r"^void ffsampling::ff_sampling<%dul, 0ul, %dul>" % (N, lg), self.ff_sampling), (r"^\w+ encoding::compress_sig<%dul, " % N, self.compress),
                       (r"^prng::prng_t::read\(", self.read), (r"^\w+ decoding::decode_skey<%dul>" % N, self.decode_skey),
                       (r"^void falcon_tree::ffldl<%dul, 0ul, %dul>" % (N, lg), self.ffldl), (r"^void falcon_tree::normalize_tree<%dul, 0ul, %dul>" % (N, lg), self.normalize)):
            I.icp[func(m, pat).name] = h
        I.canon = rex.name
        I.oncmp = self.fcmp


def show(v):
    if v is UNDEF:
        return "never written"
    return RL.rshow(rex.expand(v))[:240] if type(v) is R else repr(v)


def emission(M, I, st, sig, msg, mlen):
    """what is in the signature buffer at the end"""
    N, n = M.N, SLEN[M.N]
    by = [read(I, st, sig, j, 8) for j in range(n)]
    M.need("the header is that of the parameter set", by[0] == 0x30 | M.lg, lambda: "header byte is %s" % D.show(by[0], 2))
    M.need("the message is hashed", len(M.hashed) >= 1, "hash_to_point is not called")
    if M.hashed:
        s, slen, pm, ml = M.hashed[-1]
        M.need("signing hashes a 40-byte salt, then the whole message", slen == 40 and s is not None, lambda: "the salt hashed has %s bytes" % D.show(slen, 2))
        M.need("signing hashes a 40-byte salt, then the whole message", pm == P(msg) and ml is mlen, lambda: "the message hashed is %r, length %s" % (pm, D.show(ml, 2)))
        if s is not None and slen == 40:
            for j in range(40):
                M.need("the salt in the signature is the salt hashed", by[1 + j] == s[j] and by[1 + j] is not UNDEF, lambda: "byte %d of the salt is %s, hashed was %s" % (j, "never written" if by[1 + j] is UNDEF else D.show(by[1 + j], 1), D.show(s[j], 1) if s[j] is not UNDEF else "nothing"))
            lits = []
            for x in s:
                src = {D.LITN[(b >> 1) - 1] for b in x.args if b > 1} if type(x) is T and x.op == "bits" else set()
                lits.append(src)
            allbits = set().union(*lits)
            M.need("the salt is 320 fresh random bits", len(allbits) == 320 and all(q[0][0] == "rnd" for q in allbits) and all(len(b) == 8 for b in lits), lambda: "the salt hashed depends on %d random bits" % len([q for q in allbits if q[0][0] == "rnd"]))
    src = {}
    bad = None
    for j in range(41, n):
        x = by[j]
        r = None
        if type(x) is T and x.op == "bits" and x.args[0] > 1:
            s = D.LITN[(x.args[0] >> 1) - 1][0]
            if type(s) is tuple and s[0] == "body" and s[2] == j and x == D.inbits(s, 8, 8):
                r = s[1]
        if r is None:
            bad = bad or (j, x)
        src[r] = src.get(r, 0) + 1
    M.need("the body is one compressed s2", bad is None and len(src) == 1, lambda: "byte %d of the signature is %s" % (bad[0], "never written" if bad[1] is UNDEF else D.show(bad[1], 2)) if bad else "it mixes attempts %s" % sorted(src))
    if bad is None and len(src) == 1:
        k = next(iter(src))
        a = M.at[k]
        h = "after attempts %s" % "".join(M.history)
        M.need("a signature is only emitted if its s2 was compressed in full", a.packed, "%s: the signature is that of attempt %d, whose s2 did not fit" % (h, k))
        M.need("a signature is only emitted if its norm was found within the bound", a.normed, "%s: %s" % (h, M.odd[0] if M.odd else "the norm of the point emitted is never compared with the bound"), und=any(o.startswith("comparison") for o in M.odd))
        M.need("a signature is only emitted if its norm was found within the bound", a.accept != "R", "%s: the signature emitted is that of attempt %d, whose norm is beyond the bound" % (h, k))
        M.need("signing ends with the first good attempt", k == len(M.history) - 1 and len(M.at) == k + 1, "%s: the signature is that of attempt %d of %d" % (h, k, len(M.at)))


LONG = [k for _ in range(10) for k in "RCRRC"] + ["A"]
HIST = (["A"], ["R", "A"], ["C", "A"], ["R", "C", "R", "A"], ["C", "C", "A"], ["R", "R", "C", "C", "A"])


def many(m, N, hist):
    def go(ctx):
        fresh_domains()
        rex.reset()
        f = ptr_target(m, "fl_sign_many_%d" % N)
        w = "%s [N=%d]" % (fwhere(None, func(m, r"^void signing::sign<%dul, " % N), m), N)
        I = interp(m)
        M = Model(ctx, m, N, hist, w)
        M.B = lambda j, i: var2("B", j * N + i)
        M.T = "T"
        M.install(I)
        mlen = D.atom("mlen", 64)
        B, Tt = cplx_in("B", 4 * N), cplx_in("T", (M.lg + 1) * N)
        msg, sig, rng = Obj("msg", mlen, "cinput", None, 1), out("sig", SLEN[N]), Obj("rng", 224, "input", None, 1)
        M.rng = P(rng)
        st, r = I.call(f, [P(B), P(Tt), P(msg), mlen, P(sig), P(rng)], State())
        emission(M, I, st, sig, msg, mlen)
        ctx.obligations(I, NOUB, "sign: no undefined behaviour")
        ctx.took(I)
    return go


def one(m, N, dec):
    def go(ctx):
        fresh_domains()
        rex.reset()
        f = ptr_target(m, "fl_sign_one_%d" % N)
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        M = Model(ctx, m, N, ["R", "A"], w)
        M.dec = dec
        nm = ("^g", "^f", "^round ifft0", "^F")

        def Bm(j, i):
            x = var2(nm[j], i)
            return x if j in (0, 2) else (RL.neg(x[0]), RL.neg(x[1]))
        M.B = Bm
        M.T = "T"
        M.install(I)
        mlen = D.atom("mlen", 64)
        sk, msg, sig = bytes_in("skey", {512: 1281, 1024: 2305}[N]), Obj("msg", mlen, "cinput", None, 1), out("sig", SLEN[N])
        st, r = I.call(f, [P(sk), P(msg), mlen, P(sig)], State())
        ctx.obligations(I, NOUB, "sign: no undefined behaviour")
        ctx.took(I)
        M.need("signing decodes the key it was given", getattr(M, "skey", None) == P(sk), lambda: "decoded is %r" % (getattr(M, "skey", None),))
        if not dec:
            M.need("signing fails if the key does not decode", r == 0 and type(r) is int, lambda: "the result is %s although the key does not decode" % D.show(r, 2))
            by = [read(I, st, sig, j, 8) for j in range(SLEN[N])]
            M.need("no signature is emitted if the key does not decode", all(x is UNDEF for x in by), "the signature buffer is written although the key does not decode")
            return
        M.need("signing succeeds if the key decodes", r == 1 and type(r) is int, lambda: "the result is %s" % D.show(r, 2))
        emission(M, I, st, sig, msg, mlen)
        # G
        for i in range(N):
            g, F, ff = var2("^g", i), var2("^F", i), var2("^f", i)
            want = cdiv(cadd(cmul(g, F), (float(Q), 0.0)), ff)
            good = M.iffts and all([M.same("G = (g*F + q) / f", u, v, "element %d of the transform of G" % i) for u, v in zip(M.iffts[0][i], want)])
            if not good:
                M.need("G = (g*F + q) / f", bool(M.iffts), "no inverse transform is taken")
                break
    return go


def pick(ctx, keep):
    """keep the rules of one property"""
    pass


def analyse(ctx, rules, jobs):
    """run jobs and record only the obligations of the property's own rules; what the others
    leave undecided still makes the answer undecided"""
    def only(j):
        def go(c):
            try:
                j(c)
            finally:
                c.viol = [v for v in c.viol if rules(v[0])]
                c.und = [v for v in c.und if rules(v[0])]
                n = ok = 0
                for k in list(c.rules):
                    if not rules(k):
                        del c.rules[k]
                    else:
                        n += c.rules[k][0]
                        ok += c.rules[k][1]
                c.n, c.ok = n, ok
                if c.n == 0 and False:
                    raise Anchor("no rule applied")
        return go
    ctx.fork([only(j) for j in jobs])


ASSUME = ["floating-point rounding is not modelled: doubles are read as real numbers",
          "hashing, transforms, compression, key decoding, sampling and tree building are as P09, P13, P03, P18 and P19 establish"]


def jobs_many(m, tier):
    return ([many(m, 512, LONG)] + [many(m, 1024, LONG)] if tier == "thorough" else [many(m, 512, LONG[20:])]) + [many(m, N, h) for N in (1024, 512) for h in HIST]


def jobs_one(m):
    return [one(m, N, d) for N in (1024, 512) for d in (1, 0)]


EMIT = ("the norm is", "the header", "the message is", "signing hashes", "the salt", "the body", "a signature", "signing ends", "sign: no undefined", "no signature", "signing fails", "signing succeeds")
KEY = ("G = ", "the tree", "signing decodes", "sampling uses the key", "signing fails", "signing succeeds", "no signature", "transform", "fft:")


def p10(ctx):
    m = module()
    ctx.assume = ASSUME
    analyse(ctx, lambda r: r.startswith(EMIT), jobs_many(m, ctx.tier) + jobs_one(m))
    ctx.minimum("the salt in the signature is the salt hashed", 80 * len(HIST))


def p11(ctx):
    m = module()
    ctx.assume = ASSUME
    analyse(ctx, lambda r: not r.startswith(EMIT + KEY) or r.startswith(("sampling uses the key", "transform", "fft:")), jobs_many(m, ctx.tier))
    ctx.minimum("the target is (c, 0) * B^-1", 4 * 1536)


def p12(ctx):
    m = module()
    ctx.assume = ASSUME
    analyse(ctx, lambda r: r.startswith(KEY), jobs_one(m))
    ctx.minimum("G = (g*F + q) / f", 2 * 1536)
