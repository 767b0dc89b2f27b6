"""P09: the complex transforms and the pointwise polynomial arithmetic."""
import cmath
import math

import numpy as np

from chk import *
from lib import *

TOLM = 2e-13
NOUB = ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite", "inputwrite")


def lvbasis(name, N, base, dim, kind="cinput"):
    """N complex inputs as basis vectors base.. (re, im interleaved) of an affine space"""
    def gen(off, size):
        if size == 8 and off % 8 == 0:
            v = np.zeros(dim + 1)
            v[base + off // 8] = 1.0
            return LV(v)
        return None
    return Obj(name, 16 * N, kind, gen, 8)


def asvec(v, dim):
    if type(v) is LV:
        return v.v
    if type(v) is float:
        r = np.zeros(dim + 1)
        r[-1] = v
        return r
    return None


def matrix(ctx, I, st, o, N, dim, what, w):
    """complex matrix that gives the N values of o from dim/2 complex inputs"""
    A = np.zeros((2 * N, dim + 1))
    for k in range(2 * N):
        r = asvec(readd(I, st, o, 8 * k), dim)
        if not ctx.need("%s: every output is a linear form of the inputs" % what, r is not None, w, lambda: "part %d of output %d is not" % (k % 2, k // 2), und=True):
            return None
        A[k] = r
    ctx.need("%s: no constant term" % what, not np.abs(A[:, -1]).max() > 0, w, lambda: "output %d has a constant term" % (int(np.argmax(np.abs(A[:, -1]))) // 2))
    rr, ri, ir_, ii = A[0::2, 0:-1:2], A[0::2, 1:-1:2], A[1::2, 0:-1:2], A[1::2, 1:-1:2]
    conj = "adj" in what
    if conj:
        ri, ii = -ri, -ii
    bad = np.argwhere((np.abs(rr - ii) > TOLM) | (np.abs(ri + ir_) > TOLM))
    ctx.need("%s: complex linear" % what, not len(bad), w, lambda: "output %d treats the real and the imaginary part of input %d differently" % tuple(bad[0]))
    return rr + 1j * ir_


def gets(m, ns, nm, N):
    lg = N.bit_length() - 1
    f = func(m, r"^(\w+ )*%s::%s<%dul>" % (ns, nm, lg))
    return f, "%s [N=%d]" % (fwhere(None, f, m), N)


def run(ctx, m, nm, N, objs, dim):
    f, w = gets(m, "fft", nm, N)
    I = interp(m)
    st, _ = I.call(f, [P(o) for o in objs], State())
    ctx.obligations(I, NOUB, "%s: no undefined behaviour" % nm)
    ctx.took(I)
    return I, st, w


def roots(ctx, F, w, N):
    """rows of F must be the powers of the N distinct roots of x^N+1"""
    seen = {}
    e = np.arange(N)
    ks = []
    for i in range(N):
        k = int(round(cmath.phase(F[i][1]) * N / math.pi)) % (2 * N) if N > 1 else 1
        want = np.exp(1j * np.pi * ((k * e) % (2 * N)) / N)
        d = np.abs(want - F[i])
        j = int(np.argmax(d))
        ctx.need("fft: output is the polynomial's value at a root of x^N+1", k % 2 == 1 and d[j] < TOLM, w,
                 lambda: "output %d: coefficient of x[%d] is %.17g%+.17gi, for the root exp(i*pi*%d/%d) it must be %.17g%+.17gi" % (i, j, F[i][j].real, F[i][j].imag, k, N, want[j].real, want[j].imag)
                 if k % 2 else "output %d is a value at exp(i*pi*%d/%d), which is no root" % (i, k, N))
        ctx.need("fft: the roots are distinct", k not in seen, w, lambda: "outputs %d and %d are values at the same root" % (seen[k], i))
        seen[k] = i
        ks.append(k)
    return ks


def exactF(ks, N):
    return np.exp(1j * np.pi * ((np.outer(ks, np.arange(N))) % (2 * N)) / N)


def near(ctx, rule, A, B, w, what):
    d = np.abs(A - B)
    bad = np.unravel_index(int(np.argmax(d)), d.shape)
    ctx.need(rule, d[bad] < 1e-12, w, lambda: "%s: coefficient %d of output %d is %.17g%+.17gi, must be %.17g%+.17gi" % (what, bad[1], bad[0], A[bad].real, A[bad].imag, B[bad].real, B[bad].imag))


def transforms(m, N):
    def go(ctx):
        fresh_domains()
        half = N // 2
        F = {1: np.ones((1, 1), dtype=complex)}
        for n in {half, N} - {1}:
            x = lvbasis("x", n, 0, 2 * n, "input")
            I, st, w = run(ctx, m, "fft", n, [x], 2 * n)
            A = matrix(ctx, I, st, x, n, 2 * n, "fft", w)
            if A is None:
                return
            F[n] = exactF(roots(ctx, A, w, n), n) if n == N else A
        # inverse
        x = lvbasis("x", N, 0, 2 * N, "input")
        I, st, w = run(ctx, m, "ifft", N, [x], 2 * N)
        A = matrix(ctx, I, st, x, N, 2 * N, "ifft", w)
        if A is not None:
            near(ctx, "ifft(fft(x)) = x", A @ F[N], np.eye(N), w, "for x in coefficients")
        # split
        x = lvbasis("f", N, 0, 2 * N)
        a, b = out("f0", 16 * max(half, 1)), out("f1", 16 * max(half, 1))
        try:
            func(m, r"fft::split_fft<%dul>" % (N.bit_length() - 1))
            sp = True
        except Anchor:
            sp = False
        if sp:
            I, st, w = run(ctx, m, "split_fft", N, [x, a, b], 2 * N)
            for o, k, nm in ((a, 0, "f0"), (b, 1, "f1")):
                A = matrix(ctx, I, st, o, half, 2 * N, "split_fft", w)
                if A is None:
                    continue
                want = np.zeros((half, N), dtype=complex)
                want[:, k::2] = F[half]
                near(ctx, "split_fft(fft(f)) = fft of the even and odd coefficients", A @ F[N], want, w, nm)
        try:
            func(m, r"fft::merge_fft<%dul>" % (N.bit_length() - 1))
            mg = True
        except Anchor:
            mg = False
        if mg:
            a, b = lvbasis("f0", half, 0, 2 * N), lvbasis("f1", half, 2 * half, 2 * N)
            o = out("f", 16 * N)
            I, st, w = run(ctx, m, "merge_fft", N, [a, b, o], 2 * N)
            A = matrix(ctx, I, st, o, N, 2 * N, "merge_fft", w)
            if A is not None:
                want = np.zeros((N, N), dtype=complex)
                want[:, :half], want[:, half:] = F[N][:, 0::2], F[N][:, 1::2]
                B = np.zeros((N, N), dtype=complex)
                B[:half, :half] = B[half:, half:] = F[half]
                near(ctx, "merge_fft(fft(f0), fft(f1)) = fft(f0(x^2) + x f1(x^2))", A @ B, want, w, "f")
        try:
            f, w = gets(m, "fft", "adj_poly", N)
        except Anchor:
            return
        x = lvbasis("x", N, 0, 2 * N, "input")
        I, st, w = run(ctx, m, "adj_poly", N, [x], 2 * N)
        A = matrix(ctx, I, st, x, N, 2 * N, "adj_poly", w)
        if A is not None:
            # value at the conjugated roots = value of f(1/x) for real f
            near(ctx, "adj_poly is the conjugate", A, np.eye(N), w, "")
    return go


def refute(ctx, m, N):
    """constant propagation of one vector through both transforms"""
    import random
    rnd = random.Random(N)
    xs = [complex(rnd.uniform(-9, 9), rnd.uniform(-9, 9)) for _ in range(N)]

    def runc(nm, v):
        f, w = gets(m, "fft", nm, N)
        I = interp(m)
        o = Obj("v", 16 * N, "input", lambda off, size: (v[off // 16].imag if off % 16 else v[off // 16].real) if size == 8 else None, 8)
        st, _ = I.call(f, [P(o)], State())
        return [complex(readd(I, st, o, 16 * i), readd(I, st, o, 16 * i + 8)) for i in range(N)], w
    try:
        y, w = runc("fft", xs)
        z, wi = runc("ifft", y)
    except (Stop, TypeError):
        return
    d = max(abs(p - q) for p, q in zip(xs, z))
    ctx.need("ifft(fft(x)) = x", d < 1e-9, wi, "for a constant vector the result differs by %g" % d)
    got = sorted(y, key=lambda c: (round(c.real, 6), round(c.imag, 6)))
    want = [sum(c * cmath.exp(1j * math.pi * (k * e % (2 * N)) / N) for e, c in enumerate(xs)) for k in range(1, 2 * N, 2)]
    want.sort(key=lambda c: (round(c.real, 6), round(c.imag, 6)))
    d = max(abs(p - q) for p, q in zip(got, want))
    ctx.need("fft: output is the polynomial's value at a root of x^N+1", d < 1e-6, w, "for a constant vector the values differ by %g" % d)


def cplx(re, im):
    return re, im


def cmul(a, b):
    return RL.sub(RL.mul(a[0], b[0]), RL.mul(a[1], b[1])), RL.add(RL.mul(a[0], b[1]), RL.mul(a[1], b[0]))


def cdiv(a, b):
    n = RL.add(RL.mul(b[0], b[0]), RL.mul(b[1], b[1]))
    return RL.div(RL.add(RL.mul(a[0], b[0]), RL.mul(a[1], b[1])), n), RL.div(RL.sub(RL.mul(a[1], b[0]), RL.mul(a[0], b[1])), n)


OPS = {
    "add": lambda a, b: (RL.add(a[0], b[0]), RL.add(a[1], b[1])),
    "add_to": lambda a, b: (RL.add(a[0], b[0]), RL.add(a[1], b[1])),
    "sub": lambda a, b: (RL.sub(a[0], b[0]), RL.sub(a[1], b[1])),
    "mul": cmul,
    "div": cdiv,
}


def realdiff(a, b):
    """values at which two real expressions differ, by constant folding"""
    if RL.equal(a, b):
        return None
    import random
    rnd = random.Random(5)
    at = RL.atoms_of(a) | RL.atoms_of(b)
    if any(RL.ATOMS[x].kind != "in" for x in at):
        return None
    for _ in range(6):
        p = {x: rnd.uniform(0.5, 2) * rnd.choice((-1, 1)) for x in at}
        u, v = reval(a, p), reval(b, p)
        if u is not None and v is not None and abs(u - v) > 1e-6 * (abs(u) + abs(v)):
            return u, v
    return None


def peval(q, p):
    s = 0.0
    for mm, c in q.items():
        for x, e in mm:
            c *= p[x] ** e
        s += c
    return s


def reval(r, p):
    if type(r) is float:
        return r
    if type(r) is not R:
        return None
    d = 1.0
    for k, e in r.den:
        d *= peval(RL.DENS[k], p) ** e
    return peval(r.num, p) / d if d else None


def samereal(ctx, rule, a, b, w, what):
    ok = type(a) in (R, float) and RL.equal(a, b)
    d = None if ok or type(a) not in (R, float) else realdiff(a, b)
    return ctx.need(rule, ok, w, lambda: "%s is %s, must be %s" % (what, RL.rshow(a) if type(a) is R else a, RL.rshow(b)), und=not ok and d is None)


def pointwise(m, nm, N):
    """complex polynomial operation"""
    def go(ctx):
        fresh_domains()
        lg = N.bit_length() - 1
        rx = re.compile(r"polynomial::%s<%dul>\((std::complex<double> const\*|std::complex<double>\*)" % (nm, lg))
        fs = [f for f in m.funcs.values() if rx.search(f.dem)]
        if not fs:
            return
        f = fs[0]
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        a, b = cplx_in("a", N, "input" if nm == "add_to" else "cinput"), cplx_in("b", N)
        o = a if nm == "add_to" else out("c", 16 * N)
        st, _ = I.call(f, [P(a), P(b)] + ([] if o is a else [P(o)]), State())
        ctx.obligations(I, NOUB, "polynomial arithmetic: no undefined behaviour")
        ctx.took(I)
        for i in range(N):
            x = [RL.var("a[%d].%s" % (i, p)) for p in ("re", "im")]
            y = [RL.var("b[%d].%s" % (i, p)) for p in ("re", "im")]
            want = OPS[nm](x, y)
            for k, p in ((0, "re"), (1, "im")):
                samereal(ctx, "complex polynomial %s is pointwise" % nm, readd(I, st, o, 16 * i + 8 * k), want[k], w, "%s of element %d" % (p, i))
    return go


def modular(m, nm, N):
    def go(ctx):
        fresh_domains()
        lg = N.bit_length() - 1
        rx = re.compile(r"polynomial::%s<%dul>\(ff::ff_t" % (nm, lg))
        fs = [f for f in m.funcs.values() if rx.search(f.dem)]
        if not fs:
            return
        f = fs[0]
        w = "%s [N=%d]" % (fwhere(None, f, m), N)
        I = interp(m)
        ip = nm in ("add_to", "neg")
        a, b = ffs_in("a", N, "input" if ip else "cinput"), ffs_in("b", N)
        if nm == "div":
            inv = func(m, r"^ff::ff_t::inv\(\) const$")

            def hinv(I, st, ins, args):
                o = args[-1] if len(inv.args) == 1 else args[1]
                x = read(I, st, o.obj, o.off, 16)
                z = D.atom("inv(%s)" % D.show(x), 16, ulo=0, uhi=Q - 1)
                if len(inv.args) == 2:
                    I.write(st, args[0].obj, args[0].off, 2, z)
                    return st, None
                return st, z
            I.icp[inv.name] = hinv
        o = a if ip else out("c", 2 * N)
        args = {"neg": [P(a)], "add_to": [P(a), P(b)]}.get(nm, [P(a), P(b), P(o)])
        st, _ = I.call(f, args, State())
        ctx.obligations(I, NOUB, "polynomial arithmetic: no undefined behaviour")
        ctx.took(I)
        for i in range(N):
            x, y = D.atom("a[%d]" % i, 16, ulo=0, uhi=Q - 1), D.atom("b[%d]" % i, 16, ulo=0, uhi=Q - 1)
            px, py = D.mq(x), D.mq(y)
            if nm == "div":
                py = D.mq(D.atom("inv(%s)" % D.show(y), 16, ulo=0, uhi=Q - 1))
            want = {"neg": lambda: D.pscale(px, -1), "add_to": lambda: D.padd(px, py), "mul": lambda: D.pmul(px, py), "div": lambda: D.pmul(px, py)}[nm]()
            r = read(I, st, o, 2 * i, 16)
            got = D.mq(r) if type(r) in (int, T) else None
            ok = got is not None and {k: v % Q for k, v in got.items() if v % Q} == {k: v % Q for k, v in want.items() if v % Q}
            known = got is not None and all(z.op == "atom" and "~" not in str(z.args[0]) for mm in got for z, _ in mm)
            ctx.need("modular polynomial %s is pointwise" % nm, ok, w, lambda: "element %d is %s" % (i, D.show(r, 3)[:300]), und=not known)
            ctx.need("modular polynomial %s gives canonical elements" % nm, type(r) is int and r < Q or type(r) is T and D.urng(r, 16)[1] < Q, w, lambda: "element %d can reach %s" % (i, D.urng(r, 16) if type(r) is T else r), und=True)
    return go


def p09(ctx):
    m = module()
    ctx.assume = ["floating-point rounding is not modelled: doubles are read as real numbers (coefficients compared to 1e-12)"]
    sizes = [1 << k for k in range(10, 0, -1)]
    jobs = []
    for N in sizes:
        def tr(c, N=N):
            try:
                transforms(m, N)(c)
            except Stop as e:
                c.need("fft: output is the polynomial's value at a root of x^N+1", False, "fft.hpp [N=%d]" % N, str(e), und=True)
            if c.und and not c.viol:
                refute(c, m, N)
        jobs.append(tr)
        jobs += [pointwise(m, nm, N) for nm in OPS]
    for N in (1024, 512):
        jobs += [modular(m, nm, N) for nm in ("neg", "add_to", "mul", "div")]
    ctx.fork(jobs)
    if not ctx.und:
        for r, k in (("ifft(fft(x)) = x", 2), ("split_fft(fft(f)) = fft of the even and odd coefficients", 2), ("merge_fft(fft(f0), fft(f1)) = fft(f0(x^2) + x f1(x^2))", 1)):
            ctx.minimum(r, k)
