"""P08: NTT and its inverse are the exact negacyclic transforms."""
import numpy as np

from chk import *
from lib import *

NS = (512, 1024)


def canon(v):
    """stored 16-bit field elements are kept as polynomials modulo q over the inputs"""
    if type(v) is T and v.w == 16 and v.uhi < Q and v.op not in ("fq", "atom"):
        p = D.mq(v)
        if len(p) > 1 or (p and next(iter(p)) != ((v, 1),)):
            if len(ODD) < 4 and any(z.op not in ("atom", "fq") for mm in p for z, _ in mm):
                ODD.append(v)
            return D.fq(p)
    if len(ODD) < 4 and type(v) is T and v.w == 16 and v.op not in ("fq", "atom"):
        ODD.append(v)
    return v


ODD = []          # stored values the linear domain could not express


def forms(t, out, seen):
    """linear forms a value is made of"""
    if type(t) is not T or t in seen:
        return
    seen.add(t)
    if t.op in ("fq", "atom"):
        out.append(t)
        return
    if t.op == "bits":
        for b in t.args:
            if b > 1 and isinstance(D.LITN[(b >> 1) - 1][0], T):
                forms(D.LITN[(b >> 1) - 1][0], out, seen)
        return
    st = list(t.args)
    while st:
        x = st.pop()
        if type(x) is T:
            forms(x, out, seen)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def solve(rows, vals, N):
    """an input vector giving the linear forms these values modulo q, or None"""
    A = [list(map(int, r)) + [v] for r, v in zip(rows, vals)]
    piv = []
    for i, r in enumerate(A):
        for (k, c), pr in zip(piv, A):
            if r[c]:
                f = r[c]
                A[i] = r = [(x - f * y) % Q for x, y in zip(r, pr)]
        c = next((j for j in range(N) if r[j]), None)
        if c is None:
            return None
        iv = pow(r[c], -1, Q)
        A[i] = r = [x * iv % Q for x in r]
        for k in range(i):
            f = A[k][c]
            if f:
                A[k] = [(x - f * y) % Q for x, y in zip(A[k], r)]
        piv.append((i, c))
    x = [0] * N
    for i, c in piv:
        x[c] = A[i][N]
    return x


def corner_vectors(N, ix):
    """input vectors that put the operands of inexpressible values at the ends of their range"""
    import itertools
    res = []
    for v in ODD[:2]:
        out = []
        forms(v, out, set())
        rows = [row(t, ix, N) for t in out]
        # the same forms may occur under several names
        rs = []
        for r in rows:
            if r is not None and not any((r == q).all() for q in rs):
                rs.append(r)
        if not rs or len(rs) > 3:
            continue
        for vals in itertools.product((0, Q - 1, 1, (Q + 1) // 2), repeat=len(rs)):
            x = solve(rs, vals, N)
            if x is not None:
                res.append(x)
    return res[:24]


def row(v, ix, N):
    """coefficients of a linear form over the input vector; None if it is not one"""
    r = np.zeros(N, dtype=np.int64)
    if type(v) is int:
        return r if v == 0 else None
    if type(v) is not T:
        return None
    for m, c in D.mq(v).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in ix:
            return None
        r[ix[m[0][0]]] = c
    return r


def mulq(a, b):
    return (a.astype(np.float64) @ b.astype(np.float64) % Q).astype(np.int64)


def transform(ctx, m, nm, N, tmp):
    """matrix of a transform, as far as the analysis can tell"""
    lg = N.bit_length() - 1
    f = func(m, r"^\w+ ntt::%s<%dul>" % (nm, lg))
    w = fwhere(None, f, m)
    I = interp(m)
    I.canon = canon
    x = ffs_in("x", N, "input")
    ix = {read(I, State(), x, 2 * i, 16): i for i in range(N)}
    st, _ = I.call(f, [P(x)], State())
    M = np.zeros((N, N), dtype=np.int64)
    ok = True
    if ODD:
        import pickle
        with open("%s/%s%d.odd" % (tmp, nm, N), "wb") as fh:
            pickle.dump(corner_vectors(N, ix), fh)
    for i in range(N):
        v = read(I, st, x, 2 * i, 16)
        u = D.urng(v, 16)[1] if type(v) is T else v
        ctx.need("%s: every output is a canonical element of Z_q" % nm, type(v) in (int, T) and u < Q, "%s [N=%d]" % (w, N), lambda: "output %d can be as large as %d" % (i, u), und=True)
        r = row(v, ix, N)
        ctx.need("%s: every output is a linear form of the inputs" % nm, r is not None, "%s [N=%d]" % (w, N), lambda: "output %d is %s" % (i, D.show(v, 3)[:300]), und=True)
        ok &= r is not None
        if r is not None:
            M[i] = r
    ctx.obligations(I, ("bounds", "overflow", "divzero", "uninit", "shift", "constwrite", "globalwrite"), "%s: no undefined behaviour" % nm)
    ctx.took(I)
    return (M if ok else None), w


def forward(ctx, W, w, N):
    """rows must be 1, r, r^2, ... for the N distinct roots r of x^N + 1"""
    seen = {}
    for i in range(N):
        r = int(W[i][1])
        p = np.ones(N, dtype=np.int64)
        for j in range(1, N):
            p[j] = p[j - 1] * r % Q
        good = (p == W[i]).all()
        ctx.need("ntt: output is the polynomial's value at a root of x^N+1", good and int(p[-1]) * r % Q == Q - 1, "%s [N=%d]" % (w, N),
                 lambda: "output %d: coefficient of x[%d] is %d, for root %d it must be %d" % ((i, j0(p, W[i]), W[i][j0(p, W[i])], r, p[j0(p, W[i])])))
        ctx.need("ntt: the roots are distinct", r not in seen, "%s [N=%d]" % (w, N), lambda: "outputs %d and %d are values at the same root" % (seen[r], i))
        seen[r] = i


def j0(p, q):
    d = np.nonzero(p != q)[0]
    return int(d[0]) if len(d) else len(p) - 1


def p08(ctx):
    m = module()
    fresh_domains()

    def job(N, part):
        def go(c):
            fresh_domains()
            ODD.clear()
            M, w = transform(c, m, part, N, tmp)
            if M is None:
                return
            if part == "ntt":
                forward(c, M, w, N)
            else:
                # inverse of the transform with the rows above: M's row j gives coefficient j,
                # so column k of M must be 1/N * (r_k^-j) for the N distinct roots r_k
                seen = {}
                ninv = pow(N, -1, Q)
                for k in range(N):
                    col = M[:, k]
                    s = int(col[1]) * N % Q
                    p = np.ones(N, dtype=np.int64) * ninv
                    for j in range(1, N):
                        p[j] = p[j - 1] * s % Q
                    good = (p == col).all() and pow(s, N, Q) == Q - 1
                    c.need("intt: input %s contributes 1/N times powers of an inverse root" % "k", good, "%s [N=%d]" % (w, N),
                           lambda: "input %d contributes %d to output %d, must be %d" % (k, col[j0(p, col)], j0(p, col), p[j0(p, col)]))
                    c.need("intt: the roots are distinct", s not in seen, "%s [N=%d]" % (w, N), lambda: "inputs %d and %d use the same root" % (seen[s], k))
                    seen[s] = k
            import tempfile
            np.save("%s/%s%d.npy" % (tmp, part, N), M)
        return go
    tmp = tempfile.mkdtemp(prefix="falconlint.")
    try:
        ctx.fork([job(N, part) for N in (1024, 512) for part in ("ntt", "intt")])
        for N in NS:
            try:
                W, V = np.load("%s/ntt%d.npy" % (tmp, N)), np.load("%s/intt%d.npy" % (tmp, N))
            except FileNotFoundError:
                continue
            E = mulq(V, W)
            lg = N.bit_length() - 1
            w = fwhere(None, func(m, r"^\w+ ntt::intt<%dul>" % lg), m)
            bad = np.argwhere(E != np.eye(N, dtype=np.int64))
            ctx.need("intt(ntt(x)) = x", not len(bad), "%s [N=%d]" % (w, N), lambda: "coefficient %d of the result has %d times coefficient %d of x" % (bad[0][0], E[bad[0][0]][bad[0][1]], bad[0][1]))
        if ctx.und and not ctx.viol:
            refute(ctx, m, tmp)
    finally:
        shutil.rmtree(tmp)
    if not ctx.und:
        ctx.minimum("intt(ntt(x)) = x", 2)


def refute(ctx, m, tmp):
    """constant propagation of a few vectors through both transforms"""
    import random
    for N in NS:
        lg = N.bit_length() - 1
        fwd, bwd = (func(m, r"^\w+ ntt::%s<%dul>" % (nm, lg)) for nm in ("ntt", "intt"))
        w = fwhere(None, fwd, m)
        rnd = random.Random(7)
        a = [rnd.randrange(Q) for _ in range(N)]
        b = [rnd.randrange(Q) if i < 3 else Q - 1 if i == N - 1 else 0 for i in range(N)]
        ab = [0] * N
        for j, y in enumerate(b):
            if y:
                for i, x in enumerate(a):
                    k = i + j
                    ab[k % N] = (ab[k % N] + (x * y if k < N else -x * y)) % Q

        def run(f, v):
            I = interp(m)
            o = Obj("v", 2 * N, "input", lambda off, size: v[off // 2] if size == 2 else None, 2)
            st, _ = I.call(f, [P(o)], State())
            return [read(I, st, o, 2 * i, 16) for i in range(N)]
        cand = []
        for nm in ("ntt", "intt"):
            try:
                with open("%s/%s%d.odd" % (tmp, nm, N), "rb") as fh:
                    import pickle
                    cand += [(nm, x) for x in pickle.load(fh)]
            except FileNotFoundError:
                pass
        try:
            A, B = run(fwd, a), run(fwd, b)
            back = run(bwd, A)
            prod = run(bwd, [x * y % Q for x, y in zip(A, B)])
        except (Stop, TypeError):
            continue
        for got, want, what in ((back, a, "intt(ntt(x)) = x"), (prod, ab, "pointwise products are negacyclic products")):
            d = [i for i in range(N) if got[i] != want[i]]
            ctx.need(what, not d, "%s [N=%d]" % (w, N), lambda: "for a constant vector, coefficient %d is %s, must be %s" % (d[0], got[d[0]], want[d[0]]))
        for nm, x in cand:
            if ctx.viol:
                break
            try:
                y = run(fwd if nm == "ntt" else bwd, x)
                z = run(bwd if nm == "ntt" else fwd, y)
            except (Stop, TypeError):
                continue
            nc = [i for i in range(N) if not (type(y[i]) is int and 0 <= y[i] < Q)]
            ctx.need("%s: every output is a canonical element of Z_q" % nm, not nc, "%s [N=%d]" % (w, N), lambda: "for the input with %s, output %d is %s" % (["x[%d]=%d" % (i, v) for i, v in enumerate(x) if v], nc[0], y[nc[0]]))
            d = [i for i in range(N) if z[i] != x[i]]
            ctx.need("intt(ntt(x)) = x", not d, "%s [N=%d]" % (w, N), lambda: "for the input with %s, coefficient %d comes back as %s" % (["x[%d]=%d" % (i, v) for i, v in enumerate(x) if v], d[0], z[d[0]]))
