"""P26 (72-bit integers), P27 (field arithmetic, wide product)."""
from chk import *
from lib import *
from exact import Exact, NoExact

MASK64 = (1 << 64) - 1


def call_sret(I, f, args, size, st):
    """call with a hidden result pointer if the function has one"""
    o = out("ret", size)
    if len(f.args) == len(args) + 1:
        r = I.call(f, [P(o)] + args, st)
        if r is None:
            return None, None, None
        return r[0], o, None
    r = I.call(f, args, st)
    if r is None:
        return None, None, None
    return r[0], None, r[1]


def member(mod, name):
    return ptr_target(mod, name)


# ------------------------------------------------------------------- P26
def u72_in(name, hi=255):
    def gen(off, size):
        if size == 8 and off in (0, 8):
            return D.atom("%s.%s" % (name, "lo" if off else "hi"), 64, ulo=0, uhi=hi if off == 0 else MASK64)
        return None
    return Obj(name, 16, "cinput", gen, 8)


def u72_pair(I, st, o, v):
    if o is not None:
        return read(I, st, o, 0, 64), read(I, st, o, 8, 64)
    return v[0], v[1]


EDGE = [(h, l) for h in (0, 1, 2, 127, 254, 255) for l in (0, 1, 7, (1 << 32) - 1, 1 << 32, 1 << 63, MASK64 - 1, MASK64)]


def edge72(n):
    for ah, al in EDGE:
        for bh, bl in EDGE if n == 2 else [(0, 0)]:
            yield {"a.hi": ah, "a.lo": al, "b.hi": bh, "b.lo": bl}


def p26(ctx):
    m = module()
    fresh_domains()
    M72 = 1 << 72
    for nm, n in (("add", 2), ("sub", 2), ("neg", 1)):
        f = member(m, "fl_u72_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        a, b = u72_in("a"), u72_in("b")
        st, o, v = call_sret(I, f, [P(a), P(b)][:n], 16, State())
        hi, lo = u72_pair(I, st, o, v)
        X = Exact()
        g = lambda o, off: X.of(read(I, st, o, off, 64))

        def spec(p):
            x, y = p["a.hi"] << 64 | p["a.lo"], p["b.hi"] << 64 | p["b.lo"]
            z = {"add": x + y, "sub": x - y, "neg": -x}[nm] % M72
            return z >> 64, z & MASK64
        bad = at_points(edge72(n), [hi, lo], spec)
        if bad:
            ctx.need("72-bit %s is exact modulo 2^72" % nm, False, w, "for %s the result is %s, must be %s" % bad)
            continue
        try:
            A = X.add(X.scale(g(a, 0), 1 << 64), g(a, 8))
            want = A
            if nm == "neg":
                want = X.scale(A, -1)
            else:
                Bv = X.add(X.scale(g(b, 0), 1 << 64), g(b, 8))
                want = X.add(A, Bv, 1 if nm == "add" else -1)
            want = X.wrap(want, 72)
            got = X.add(X.scale(X.of(hi), 1 << 64), X.of(lo))
            r = X.prange(X.of(hi))
            # the two readings agree modulo 2^72 and the high word is a byte
            d = X.wrap(X.add(got, want, -1), 72)
            ctx.need("72-bit %s is exact modulo 2^72" % nm, not d, w, lambda: "result - expected = %s" % X.show(d), und=True)
            hr = D.urng(hi)
            ctx.need("high word stays below 2^8", max(hr) <= 255 or r[1] <= 255, w, lambda: "high word up to %d" % hr[1], und=True)
        except NoExact as e:
            ctx.need("72-bit %s is exact modulo 2^72" % nm, False, w, "operation %s in the result" % e, und=True)
        ctx.took(I)
    for nm in ("gt", "lt"):
        f = member(m, "fl_u72_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        a, b = u72_in("a"), u72_in("b")
        st, v = I.call(f, [P(a), P(b)], State())
        ah, al, bh, bl = (read(I, st, x, k, 64) for x, k in ((a, 0), (a, 8), (b, 0), (b, 8)))
        bad = at_points(edge72(2), [v], lambda p: [int((p["a.hi"], p["a.lo"]) > (p["b.hi"], p["b.lo"])) if nm == "gt" else int((p["a.hi"], p["a.lo"]) < (p["b.hi"], p["b.lo"]))])
        if bad:
            ctx.need("72-bit comparison follows the order", False, w, "for %s the result is %s, must be %s" % bad)
            continue
        for hc in "<=>":
            for lc in "<=>":
                s = st.fork()
                s.pc, s.facts = frozenset(), D.NOFACTS
                for c, x, y in ((hc, ah, bh), (lc, al, bl)):
                    I.assume(s, D.ult(x, y, 64), c == "<")
                    I.assume(s, D.ult(y, x, 64), c == ">")
                    I.assume(s, D.eq(x, y, 64), c == "=")
                c = hc if hc != "=" else lc
                want = int(c == (">" if nm == "gt" else "<"))
                t = I.decide(s, v) if type(v) is T else v
                ctx.need("72-bit comparison follows the order", t == want, w, lambda: "high words %s, low words %s: result %s, must be %d" % (hc, lc, D.show(v, 3) if t is None else t, want),
                         und=t is None)
        ctx.took(I)
    # byte conversions
    for nm, be in (("be", True), ("le", False)):
        f = member(m, "fl_u72_from_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        by = bytes_in("by", 9, "input")
        st, o, v = call_sret(I, f, [P(by)], 16, State())
        hi, lo = u72_pair(I, st, o, v)
        idx = list(range(9)) if not be else list(range(8, -1, -1))
        vals = [read(I, st, by, i, 8) for i in idx]
        same(ctx, "byte order of 72-bit integers", hi, D.zext(vals[8], 8, 64), w, "high byte")
        x = 0
        for k in range(8):
            x = D.or_(x, D.shl(D.zext(vals[k], 8, 64), 8 * k, 64), 64)
        same(ctx, "byte order of 72-bit integers", lo, x, w, "low 64 bits")
        ctx.took(I)
        f = member(m, "fl_u72_to_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        n = Obj("n", 16, "cinput", lambda off, size: D.inbits(("n", off), 8 if off == 0 else 64, 64) if size == 8 else None, 8)
        st, o, v = call_sret(I, f, [P(n)], 9, State())
        for k in range(9):
            if o is not None:
                g = read(I, st, o, k, 8)
            elif type(v) is tuple:
                g = D.trunc(D.lshr(v[0], 8 * k, 64), 64, 8) if k < 8 else v[1]
            want = D.trunc(D.lshr(read(I, st, n, 8, 64), 8 * (8 - k if be else k), 64), 64, 8) if k != (0 if be else 8) else D.trunc(read(I, st, n, 0, 64), 64, 8)
            same(ctx, "byte order of 72-bit integers", g, want, w, "byte %d" % k)
        ctx.took(I)
    ctx.minimum("72-bit comparison follows the order", 18)


def flat(v):
    if type(v) is tuple:
        return [y for x in v for y in flat(x)]
    return [v]


# ------------------------------------------------------------------- P27
def one(name, kind="cinput"):
    return words_in(name, 1, 16, 0, Q - 1, False, kind)


def res16(I, st, o, v):
    if o is not None:
        return read(I, st, o, 0, 16)
    v = flat(v)[0]
    return v


def edgeq():
    vs = sorted({0, 1, 2, 3, 5, 100, 4095, 4096, 6143, 6144, 6145, 8191, 8192, 12000, Q - 3, Q - 2, Q - 1} | {k * 1237 % Q for k in range(24)})
    for a in vs:
        for b in vs + [(Q - a) % Q, (Q - a + 1) % Q]:
            yield {"a[0]": a, "b[0]": b}


def constant(m, f, vals, spec):
    """constant propagation through f for a few constants; the first wrong result"""
    for x in vals:
        I = interp(m)
        z = Obj("z", 2, "cinput", lambda off, size: x if size == 2 else None, 2)
        try:
            st, o, v = call_sret(I, f, [P(z)], 2, State())
            r = res16(I, st, o, v)
        except Stop:
            return None
        if type(r) is int and r != spec(x):
            return x, r, spec(x)
    return None


def p27(ctx):
    m = module()
    fresh_domains()
    ops = {"add": lambda x, y: D.padd(x, y), "sub": lambda x, y: D.padd(x, y, -1), "mul": D.pmul, "neg": lambda x: D.pscale(x, -1),
           "addto": lambda x, y: D.padd(x, y), "multo": D.pmul}
    for nm, spec in ops.items():
        f = member(m, "fl_ff_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        a, b = one("a", "input" if nm.endswith("to") else "cinput"), one("b")
        x0, y0 = read(I, State(), a, 0, 16), read(I, State(), b, 0, 16)
        args = [P(a)] if nm == "neg" else [P(a), P(b)]
        st, o, v = call_sret(I, f, args, 2, State())
        r = read(I, st, a, 0, 16) if nm.endswith("to") else res16(I, st, o, v)
        py = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "neg": lambda x, y: -x}[nm.replace("to", "")]
        bad = at_points(edgeq(), [r], lambda p: [py(p["a[0]"], p["b[0]"]) % Q])
        if bad:
            ctx.need("field " + nm, False, w, "for %s the result is %s, must be %s" % bad)
            ctx.took(I)
            continue
        field(ctx, "field " + nm, r, spec(*[D.mq(z) for z in ([x0] if nm == "neg" else [x0, y0])]), w)
        ctx.obligations(I, ("bounds", "overflow", "divzero", "uninit", "shift"), "no undefined arithmetic")
        ctx.took(I)
    # division = multiplication by the inverse
    f = member(m, "fl_ff_div")
    inv = member(m, "fl_ff_inv")
    w = fwhere(None, f, m)
    I = interp(m)
    seen = []

    def hinv(I, st, ins, args):
        o = args[-1] if len(inv.args) == 1 else args[1]
        x = read(I, st, o.obj, o.off, 16)
        seen.append(x)
        z = D.atom("inv(%s)" % D.show(x), 16, ulo=0, uhi=Q - 1)
        if len(inv.args) == 2:
            I.write(st, args[0].obj, args[0].off, 2, z)
            return st, None
        return st, z
    I.icp[inv.name] = hinv
    a, b = one("a"), one("b")
    st, o, v = call_sret(I, f, [P(a), P(b)], 2, State())
    x0, y0 = read(I, st, a, 0, 16), read(I, st, b, 0, 16)
    if seen and all(s is y0 for s in seen):
        z = D.atom("inv(%s)" % D.show(y0), 16, ulo=0, uhi=Q - 1)
        field(ctx, "field division", res16(I, st, o, v), D.pmul(D.mq(x0), D.mq(z)), w)
    else:
        ctx.need("field division", False, w, "the divisor is not what is inverted" if seen else "no inverse is taken", und=not seen)
    ctx.took(I)
    inverse(ctx, m, inv)
    # comparisons
    for nm in ("eq", "ne", "gt", "ge", "lt", "le"):
        f = member(m, "fl_ff_" + nm)
        w = fwhere(None, f, m)
        I = interp(m)
        a, b = one("a"), one("b")
        st, v = I.call(f, [P(a), P(b)], State())
        x, y = read(I, st, a, 0, 16), read(I, st, b, 0, 16)
        import operator
        pyop = getattr(operator, nm)
        bad = at_points(edgeq(), [v], lambda p: [int(pyop(p["a[0]"], p["b[0]"]))])
        if bad:
            ctx.need("comparison of field elements", False, w, "for %s the result is %s, must be %s" % bad)
            continue
        for c in "<=>":
            s = State()
            I.assume(s, D.ult(x, y, 16), c == "<")
            I.assume(s, D.ult(y, x, 16), c == ">")
            I.assume(s, D.eq(x, y, 16), c == "=")
            want = {"eq": c == "=", "ne": c != "=", "gt": c == ">", "ge": c != "<", "lt": c == "<", "le": c != ">"}[nm]
            t = I.decide(s, v) if type(v) is T else v
            ctx.need("comparison of field elements", t == int(want), w, lambda: "a %s b: result %s" % (c, D.show(v, 3) if t is None else t), und=t is None)
        ctx.took(I)
    # exponentiation, for the exponents listed
    f = member(m, "fl_ff_pow")
    w = fwhere(None, f, m)
    for n in (0, 1, 2, 3, 5, 12, 255, 2048, 12287, 12288, (1 << 32) + 1):
        I = interp(m)
        a = one("a")
        st, o, v = call_sret(I, f, [P(a), n], 2, State())
        x = D.mq(read(I, st, a, 0, 16))
        want, base, k = {(): 1}, x, n
        while k:
            if k & 1:
                want = D.pmul(want, base)
            base = D.pmul(base, base)
            k >>= 1
        field(ctx, "exponentiation", res16(I, st, o, v), want, w + " exponent %d" % n)
        ctx.took(I)
    wide(ctx, m)
    ctx.minimum("comparison of field elements", 18)


def field(ctx, rule, r, want, w):
    if type(r) is T:
        ctx.need(rule + ": result in [0,q)", r.uhi < Q, w, lambda: "result can be as large as %d" % r.uhi, und=not over(r))
    else:
        ctx.need(rule + ": result in [0,q)", r < Q, w, "result %d" % r)
    try:
        g = D.mq(r)
    except Exception:
        g = None
    d = None
    if g != want and g is not None:
        for k in range(40):
            memo = {}
            try:
                x = ev(r, k, memo) % Q
                y = 0
                for m, c in want.items():
                    for a, e in m:
                        if isinstance(a, T):
                            v = ev(a, k, memo)
                        else:
                            v = (lambda t: D.sgn(ev(t, k, memo), t.w))(next(t for t in D.TAB.values() if t.id == a[1]))
                        c = c * pow(v, e, Q)
                    y += c
                if x != y % Q:
                    d = (x, y % Q)
                    break
            except (Noval, KeyError, TypeError, ValueError):
                break
    ctx.need(rule + ": equal to the polynomial modulo q", g == want, w, lambda: "result is %s, must be %s%s" % (pshow(g), pshow(want), " (e.g. %d instead of %d)" % d if d else ""), und=d is None)


def over(r):
    """constant folding shows a value of r that is not reduced"""
    for k in range(40):
        try:
            if ev(r, k, {}) >= Q:
                return True
        except Noval:
            return False
    return False


def pshow(p):
    if p is None:
        return "?"
    return " + ".join("%d%s" % (c, "".join("*%s%s" % (D.show(a, 0) if isinstance(a, T) else a, "^%d" % e if e != 1 else "") for a, e in m)) for m, c in list(p.items())[:6]) or "0"


# extended Euclid: relations p = q*x (mod Q) kept by the loop ---------------
def ideal(t, memo):
    """polynomial over Z_q of an integer term whose width changes are taken as exact"""
    if type(t) is not T:
        return {(): t % Q} if t % Q else {}
    r = memo.get(t)
    if r is not None:
        return r
    a, op, w = t.args, t.op, t.w
    if op == "lin":
        c = D.sgn(a[0], w) % Q
        r = {(): c} if c else {}
        for b, k in a[1]:
            r = D.padd(r, D.pscale(ideal(b, memo), D.sgn(k, w) % Q))
    elif op in ("sext", "zext", "trunc") and a[0].w > 1:
        r = ideal(a[0], memo)
    elif op == "mul":
        x, y = (ideal(z if type(z) is T else D.sgn(z, w), memo) for z in a)
        r = D.pmul(x, y)
    else:
        r = {((t, 1),): 1}
    memo[t] = r
    return r


def subst(p, sub):
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a, e in m:
            f = sub.get(a)
            for _ in range(e):
                t = D.pmul(t, f if f is not None else {((a, 1),): 1})
        r = D.padd(r, t)
    return r


def inverse(ctx, m, inv):
    w = fwhere(None, inv, m)
    I = interp(m)
    # zero is its own "inverse"
    bad = constant(m, inv, (0, 1, 2, 3, 4, 7, 11, 100, 1234, 4096, 6143, 6144, 6145, 8191, 9999, Q - 3, Q - 2, Q - 1), lambda x: pow(x, -1, Q) if x else 0)
    if bad:
        ctx.need("inverse", False, w, "the inverse of %d is computed as %d, must be %d" % bad)
        return
    z = Obj("z", 2, "cinput", lambda off, size: 0 if size == 2 else None, 2)
    st, o, v = call_sret(I, inv, [P(z)], 2, State())
    ctx.need("inverse of zero is zero", res16(I, st, o, v) == 0, w, "0 is mapped to %s" % D.show(res16(I, st, o, v)))
    one_ = Obj("z", 2, "cinput", lambda off, size: 1 if size == 2 else None, 2)
    st, o, v = call_sret(I, inv, [P(one_)], 2, State())
    ctx.need("inverse of one is one", res16(I, st, o, v) == 1, w, "1 is mapped to %s" % D.show(res16(I, st, o, v)))
    ctx.took(I)
    # any other input
    I = interp(m)
    a = words_in("a", 1, 16, 1, Q - 1, False)
    x = read(I, State(), a, 0, 16)
    rels = []

    orig = I.generalise

    def hook(f, info, L, st0, ph0, regs, rets):
        k, msg, rel = euclid(I, f, info, L, st0, ph0, regs, x)
        ex = orig(f, info, L, st0, ph0, regs, rets)
        atoms = set()
        if k >= 2:
            ph = I.loopinfo[-1][3]
            ix = {i.res: j for j, i in enumerate(f.blocks[L.head].phis)}
            for e in ex:
                left = [p for p in rel if I.decide(e[2], D.eq(ph[ix[p]][0], 0, ph[ix[p]][1])) != 1]
                if len(left) == 1:
                    atoms.add(ph[ix[rel[left[0]]]][0])
        rels.append((k, msg, atoms))
        return ex
    I.generalise = hook
    st, o, v = call_sret(I, inv, [P(a)], 2, State())
    r = res16(I, st, o, v)
    n = len(D.pmul({((x, 1),): 1}, {((x, 1),): 1}))
    p = D.mq(r)
    if p == {((x, Q - 2),): 1}:
        ctx.need("inverse", True, w, "")
    elif rels:
        k, msg, atoms = rels[0]
        ctx.need("inverse: Euclid's relations are kept by the loop", k >= 2, w, "relations r = s*x (mod q) kept by the loop: %d (%s)" % (k, msg), und=True)
        # what is returned: the cofactor of the remainder that is left (the gcd, 1), known
        # from Euclid's algorithm to lie strictly between -q and q
        cof = [t for t in leaves(r) if t is not x]
        ctx.need("inverse: the cofactor of the gcd is used", len(cof) == 1 and cof[0] in atoms, w, lambda: "the result depends on %s" % [D.show(t) for t in cof], und=True)
        if len(cof) == 1 and k >= 2:
            s16 = D.atom("cofactor", 16, slo=1 - Q, shi=Q - 1)
            z = D.rebuild(r, {cof[0]: s16})
            field(ctx, "inverse", z, D.mqs(s16, 16), w)
        else:
            ctx.need("inverse", False, w, "the result does not depend on one loop variable: %s" % D.show(r, 3), und=True)
    else:
        ctx.need("inverse", False, w, "neither Euclid's algorithm nor Fermat's exponent was recognised", und=True)
    ctx.took(I)


def leaves(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if type(t) is not T or t in seen:
        return out
    seen.add(t)
    if t.op in ("atom", "bits"):
        out.add(t)
        return out
    for a in (t.args[0] if t.op == "band" else [b for b, _ in t.args[1]] if t.op == "lin" else t.args):
        leaves(a, seen, out)
    return out


def euclid(I, f, info, L, st0, ph0, regs, x):
    """how many relations  p = q*x (mod Q)  between loop variables are invariant"""
    phis = f.blocks[L.head].phis
    at = {}
    ph = []
    for ins, (v, w) in zip(phis, ph0):
        at[ins.res] = D.atom("phi%s" % ins.res, w, slo=-(1 << (w - 1)), shi=(1 << (w - 1)) - 1)
        ph.append((at[ins.res], w))
    st = st0.fork()
    ex = []
    rg = dict(regs)
    rec, I.rec = I.rec, False
    I.run_iter(f, info, L, st, ph, rg, [], ex)
    I.rec = rec
    back = [(p) for (src, dst, s, p) in ex if dst is None]
    if len(back) != 1:
        return 0, "loop has %d back edges" % len(back), {}
    X = {((x, 1),): 1}
    names = [i.res for i in phis]
    new = dict(zip(names, [ideal(v, {}) for v, _ in back[0]]))
    ini = dict(zip(names, [v for v, _ in ph0]))
    cur = {n: {((at[n], 1),): 1} for n in names}
    cands = []
    for p in names:
        for q in names:
            if p != q:
                a, b = ideal(ini[p], {}), ideal(ini[q], {})
                if D.padd(a, D.pmul(b, X), -1) == {}:
                    cands.append((p, q))
    # drop relations that are not inductive
    best = []
    import itertools
    # a variable is related to at most one cofactor
    groups = {}
    for p, q in cands:
        groups.setdefault(p, []).append(q)
    for choice in itertools.product(*[[None] + g for g in groups.values()]):
        rel = {p: q for p, q in zip(groups, choice) if q is not None}
        sub = {at[p]: D.pmul(cur[q], X) for p, q in rel.items()}
        if any(q in rel for q in rel.values()):
            continue
        if all(D.padd(subst(new[p], sub), D.pmul(subst(new[q], sub), X), -1) == {} for p, q in rel.items()):
            if len(rel) > len(best):
                best = list(rel.items())
    return len(best), ", ".join("%s = %s*x" % r for r in best), dict(best)


# wide product --------------------------------------------------------------
def wide(ctx, m):
    f = func(m, r"samplerz::full_mul_u64\(")
    w = fwhere(None, f, m)
    I = interp(m)
    def halves(n):
        return D.add(D.zext(D.atom(n + ".lo", 32), 32, 64), D.shl(D.zext(D.atom(n + ".hi", 32), 32, 64), 32, 64), 64)
    a, b = halves("a"), halves("b")
    st, o, v = call_sret(I, f, [a, b], 16, State())
    if o is not None:
        hi, lo = read(I, st, o, 0, 64), read(I, st, o, 8, 64)
    else:
        hi, lo = flat(v)[:2]
    es = (0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x12345678)
    pts = ({"a.lo": p, "a.hi": q, "b.lo": r, "b.hi": s_} for p in es for q in es for r in es for s_ in es)

    def spec(p):
        z = (p["a.hi"] << 32 | p["a.lo"]) * (p["b.hi"] << 32 | p["b.lo"])
        return z >> 64, z & MASK64
    bad = at_points(pts, [hi, lo], spec)
    if bad:
        ctx.need("64x64 -> 128 bit product is exact", False, w, "for %s the result is %s, must be %s" % bad)
        return
    X = Exact()
    try:
        got = X.add(X.scale(X.of(hi), 1 << 64), X.of(lo))
        d = X.add(got, X.mul(X.of(a), X.of(b)), -1)
        d = {k: c for k, c in d.items() if c % (1 << 128)}
        ctx.need("64x64 -> 128 bit product is exact", not d, w, lambda: "result - a*b = %s" % X.show(d), und=True)
    except NoExact as e:
        ctx.need("64x64 -> 128 bit product is exact", False, w, "operation %s in the result" % e, und=True)
    ctx.took(I)

