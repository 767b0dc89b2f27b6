"""Abstract value domains: machine integers.

A machine integer is either a Python int (known) or a hash-consed term T, a
node of the value graph.  Every T carries sound unsigned and signed intervals;
on top of that three normal forms are kept where they apply:
  lin   c + sum k_i*base_i modulo 2^w
  bits  every bit is 0, 1 or a (possibly negated) input bit
  ite   gated choice between two values
"""


class T:
    __slots__ = ("op", "args", "w", "ulo", "uhi", "slo", "shi", "id", "mq", "depth", "vdep", "ex", "ng")

    def __repr__(self):
        return show(self, 3)


def show(t, d=3):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) and abs(t) > 9999 else repr(t)
    if t.op == "atom":
        return "%s" % (t.args[0],)
    if d == 0:
        return "#%d" % t.id
    if t.op == "lin":
        c, bs = t.args
        return "(%s)" % "+".join([str(c)] * (c != 0) + ["%s*%s" % (sgn(k, t.w), show(b, d - 1)) if sgn(k, t.w) != 1 else show(b, d - 1) for b, k in bs])
    if t.op == "bits":
        return "bits<%s>" % ",".join("%s" % litname(x) for x in reversed(t.args))
    return "%s%d(%s)" % (t.op, t.w, ",".join(show(a, d - 1) for a in t.args))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


TAB = {}
NID = [0]
LINMAX = 2200


def reset():
    FCACHE.clear()
    FLAGS.clear()
    TAB.clear()
    LITS.clear()
    LITN[:] = []
    NID[0] = 0


def _new(op, w, args, ulo, uhi, slo, shi):
    t = T()
    t.op, t.args, t.w = op, args, w
    NID[0] += 1
    t.id = NID[0]
    t.mq = None
    t.ng = None
    M = 1 << w
    H = M >> 1
    # reduce the two views against each other
    if ulo < 0:
        ulo = 0
    if uhi > M - 1:
        uhi = M - 1
    if slo < -H:
        slo = -H
    if shi > H - 1:
        shi = H - 1
    if slo >= 0:
        if slo > ulo:
            ulo = slo
        if shi < uhi:
            uhi = shi
    elif shi < 0:
        if slo + M > ulo:
            ulo = slo + M
        if shi + M < uhi:
            uhi = shi + M
    if uhi < H:
        if ulo > slo:
            slo = ulo
        if uhi < shi:
            shi = uhi
    elif ulo >= H:
        if ulo - M > slo:
            slo = ulo - M
        if uhi - M < shi:
            shi = uhi - M
    t.ulo, t.uhi, t.slo, t.shi = ulo, uhi, slo, shi
    t.depth = 0
    t.vdep = None
    t.ex = None
    return t


def mk(op, w, args, r=None):
    """hash-consed node; r = (ulo,uhi,slo,shi)"""
    k = (op, w, args)
    t = TAB.get(k)
    if t is None:
        M = 1 << w
        if r is None:
            r = (0, M - 1, -(M >> 1), (M >> 1) - 1)
        t = _new(op, w, args, *r)
        d = 0
        for a in args:
            if type(a) is T and a.op == "ite" and a.depth > d:
                d = a.depth
        t.depth = d + (op == "ite")
        TAB[k] = t
    return t


def atom(name, w, ulo=None, uhi=None, slo=None, shi=None):
    M = 1 << w
    if ulo is None and slo is None:
        r = None
    elif slo is not None:
        r = (0, M - 1, slo, shi)
    else:
        r = (ulo, uhi, -(M >> 1), (M >> 1) - 1)
    return mk("atom", w, (name,) if r is None else (name, r), r)


_fresh = [0]


def fresh(tag, w, ulo=None, uhi=None, slo=None, shi=None):
    _fresh[0] += 1
    return atom("%s~%d" % (tag, _fresh[0]), w, ulo, uhi, slo, shi)


# ------------------------------------------------------------ ranges
def urng(v, w=None):
    if type(v) is T:
        return v.ulo, v.uhi
    return v, v


def srng(v, w):
    if type(v) is T:
        return v.slo, v.shi
    s = sgn(v, w)
    return s, s


# ------------------------------------------------------------ bit literals
LITS = {}
LITN = []


def lit(src, i):
    """literal for bit i of source src (any hashable)"""
    k = (src, i)
    n = LITS.get(k)
    if n is None:
        n = LITS[k] = 2 * len(LITN) + 2
        LITN.append(k)
    return n


def litname(x):
    if x < 2:
        return str(x)
    s, i = LITN[(x >> 1) - 1]
    return ("!" if x & 1 else "") + "%s.%d" % (show(s, 0) if isinstance(s, T) else s, i)


def litneg(x):
    return 1 - x if x < 2 else x ^ 1


def mkbits(bs):
    """int or bits-term from a tuple of literals (lsb first)"""
    w = len(bs)
    lo = hi = 0
    for i, b in enumerate(bs):
        if b == 1:
            lo |= 1 << i
            hi |= 1 << i
        elif b:
            hi |= 1 << i
    if lo == hi:
        return lo
    top = bs[-1]
    M = 1 << w
    H = M >> 1
    if top == 0:
        sl, sh = lo, hi
    elif top == 1:
        sl, sh = lo - M, hi - M
    else:
        # sign bit unknown; equal top literals = sign extension
        k = w - 1
        while k > 0 and bs[k - 1] == top:
            k -= 1
        # value = low(k bits) - 2^k * top
        m = (1 << k) - 1
        sl, sh = (lo & m) - (1 << k), (hi & m)
        if k == w - 1:
            sl, sh = (lo & m) - H, hi & m
    return mk("bits", w, tuple(bs), (lo, hi, sl, sh))


def inbits(name, n, w, signed=False):
    """an input of n significant bits in a w-bit word"""
    bs = [lit(name, i) for i in range(n)]
    bs += [bs[-1] if signed else 0] * (w - n)
    return mkbits(tuple(bs))


def bits(v, w):
    """tuple of literals or None"""
    if type(v) is not T:
        return tuple((v >> i) & 1 for i in range(w))
    if v.op == "bits":
        return v.args
    return None


def abits(v, w):
    """like bits, but turns atoms into literals of themselves"""
    b = bits(v, w)
    if b is None:
        if v.op == "atom" or v.op == "zext" and v.args[0].w == 1:
            n = 0
            while (1 << n) <= v.uhi:
                n += 1
            if v.w == 1:
                return (lit(v, 0),)
            if v.op == "zext":
                return (lit(v.args[0], 0),) + (0,) * (w - 1)
            return tuple(lit(v, i) for i in range(n)) + (0,) * (w - n)
    return b


def ripple(a, b, carry):
    """bitwise sum of literal vectors when every position simplifies"""
    out = []
    c = carry
    for x, y in zip(a, b):
        # sort constants away
        ls = [x, y, c]
        ones = sum(1 for z in ls if z == 1)
        vs = [z for z in ls if z > 1]
        # cancel complementary / duplicate pairs
        if len(vs) == 3:
            p, q, r = vs
            done = False
            for p, q, r in ((vs[0], vs[1], vs[2]), (vs[0], vs[2], vs[1]), (vs[1], vs[2], vs[0])):
                if p == q:      # p+p+r : sum r, carry p
                    out.append(r)
                    c = p
                    done = True
                    break
                if p == q ^ 1:  # 1 + r: sum !r carry r
                    out.append(r ^ 1)
                    c = r
                    done = True
                    break
            if not done:
                return None
        elif len(vs) == 2:
            p, q = vs
            if p == q:
                out.append(ones & 1)
                c = p
            elif p == q ^ 1:
                out.append(1 ^ (ones & 1))
                c = 1 if ones else 0
            else:
                return None
        elif len(vs) == 1:
            p = vs[0]
            if ones == 0:
                out.append(p)
                c = 0
            elif ones == 1:
                out.append(p ^ 1)
                c = p
            else:
                out.append(p)
                c = 1
        else:
            out.append(ones & 1)
            c = 1 if ones >= 2 else 0
    return tuple(out)


# ------------------------------------------------------------ booleans (w=1)
def bnot(c):
    if type(c) is int:
        return 1 - c
    n = c.ng
    if n is not None:
        return n
    if c.op == "not":
        n = c.args[0]
    elif c.op == "bits":
        n = mkbits((c.args[0] ^ 1,))
    elif c.op == "ite":
        n = ite(c.args[0], bnot(c.args[1]), bnot(c.args[2]))
    else:
        n = mk("not", 1, (c,))
    c.ng = n
    return n


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    sa = a.args[0] if a.op == "band" else frozenset((a,))
    sb = b.args[0] if b.op == "band" else frozenset((b,))
    s = sa | sb
    if len(s) == 2 and len(sa) == 1 and len(sb) == 1:
        ka, kb = cmplin(a), cmplin(b)
        if ka is not None and kb is not None and (ka or kb):
            t = truth_under(a, facts_of(b, True))
            if t is not None:
                return b if t else 0
            t = truth_under(b, facts_of(a, True))
            if t is not None:
                return a if t else 0
    small, big = (sa, sb) if len(sa) < len(sb) else (sb, sa)
    for x in small:
        if bnot(x) in big:
            return 0
    # x & not(x & y)  ->  x & not y
    red = None
    nsmall = frozenset([bnot(x) for x in small])
    for x in s:
        if x.op == "not" and x.args[0].op == "band":
            inner = x.args[0].args[0]
            if x not in small and inner.isdisjoint(small) and inner.isdisjoint(nsmall):
                continue
            if len(inner) <= 64 and any(bnot(y) in s for y in inner):
                s2 = s - {x}
                r = 1
                return mk("band", 1, (s2,)) if len(s2) > 1 else next(iter(s2))
            if any(y in s for y in inner) if len(inner) < len(s) else any(y in inner for y in s):
                rest = inner - s
                if not rest:
                    return 0
                red = red or []
                red.append((x, rest))
    if red:
        acc = set(s)
        for x, rest in red:
            acc.discard(x)
        r = mk("band", 1, (frozenset(acc),)) if len(acc) > 1 else (next(iter(acc)) if acc else 1)
        for x, rest in red:
            y = mk("band", 1, (frozenset(rest),)) if len(rest) > 1 else next(iter(rest))
            r = band(r, bnot(y))
        return r
    return mk("band", 1, (s,))


def cmplin(c):
    """is c a comparison with a constant (True: of a sum)?"""
    if c.op == "not":
        c = c.args[0]
    if c.op not in ("ult", "slt", "eq"):
        return None
    x, y = c.args
    if type(x) is int:
        x, y = y, x
    if type(y) is not int or type(x) is not T:
        return None
    return x.op in ("lin", "zext", "sext")


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def asbool(v):
    """boolean b with v == zext b, or None"""
    if type(v) is int:
        return v if v in (0, 1) else None
    if v.op == "zext" and v.args[0].w == 1:
        return v.args[0]
    if v.op == "bits" and v.uhi == 1:
        return mkbits((v.args[0],))
    return None


def storage(k):
    return 8 if k <= 8 else 16 if k <= 16 else 32 if k <= 32 else 64 if k <= 64 else 128


def trimmed(v):
    """the same unsigned value in the narrowest storage width (bit vectors only)"""
    k = v.w
    while k > 1 and v.args[k - 1] == 0:
        k -= 1
    k = storage(k)
    return v if k >= v.w else mkbits(v.args[:k])


def simplelt(k, c):
    """x < c over k significant bits is a plain conjunction/disjunction of literals"""
    if c & (c - 1) == 0:
        return True
    low = c & -c
    return c + low == 1 << k


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    if bnot(a) is b:
        return 1
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", 1, (a, b))


def conj(c):
    if type(c) is int:
        return frozenset() if c else None
    if c.op == "band":
        return c.args[0]
    return frozenset((c,))


def ite(c, x, y):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if c.op == "not":
        return ite(c.args[0], y, x)
    w = x.w if type(x) is T else y.w if type(y) is T else None
    if w == 1 or (w is None and False):
        if x == 1 and type(x) is int:
            return bor(c, y)
        if x == 0 and type(x) is int:
            return band(bnot(c), y)
        if y == 1 and type(y) is int:
            return bor(bnot(c), x)
        if y == 0 and type(y) is int:
            return band(c, x)
    if w is None:
        raise ValueError("ite of constants needs itew")
    if w == 1 and c.op in ("ult", "slt", "eq"):
        t = truth_under(x, facts_of(c, True)) if x.op in ("ult", "slt", "eq", "not") and not (x.op == "not" and x.args[0].op == "band") else None
        if x is c:
            t = 1
        if t is not None:
            return ite(c, t, y)
        t = truth_under(y, facts_of(c, False)) if y.op in ("ult", "slt", "eq", "not") and not (y.op == "not" and y.args[0].op == "band") else None
        if t is not None:
            return ite(c, x, t)
    return _ite(c, x, y, w)


def itew(c, x, y, w):
    if type(c) is int:
        return x if c else y
    if type(x) is int and type(y) is int:
        if x == y:
            return x
        if w == 1:
            return c if x else bnot(c)
        if c.op == "not":
            return itew(c.args[0], y, x, w)
        return _ite(c, x, y, w)
    return ite(c, x, y)


def _ite(c, x, y, w):
    # collapse nested choices on the same condition
    if type(x) is T and x.op == "ite" and x.args[0] is c:
        x = x.args[1]
    if type(y) is T and y.op == "ite" and y.args[0] is c:
        y = y.args[2]
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if w == 1:
        nc = bnot(c)
        if x is c or x is nc:
            x = 1 if x is c else 0
            return itew(c, x, y, 1)
        if y is c or y is nc:
            y = 0 if y is c else 1
            return itew(c, x, y, 1)
        if type(x) is int or type(y) is int:
            if type(y) is int:
                return band(c, x) if not y else bor(nc, x)
            return bor(c, y) if x else band(nc, y)
    if type(x) is T and x.op == "ite" and (x.args[2] is y or type(y) is int and type(x.args[2]) is int and x.args[2] == y):
        return ite(band(c, x.args[0]), x.args[1], y) if type(x.args[1]) is T or type(y) is T else itew(band(c, x.args[0]), x.args[1], y, w)
    if type(y) is T and y.op == "ite" and (y.args[1] is x or type(x) is int and type(y.args[1]) is int and y.args[1] == x):
        return itew(bor(c, y.args[0]), x, y.args[2], w)
    if type(x) is int and type(y) is int:
        cb = c.args if c.op == "bits" else None
        if cb is not None:
            return mkbits(tuple((1 if (y >> i) & 1 else cb[0]) if (x >> i) & 1 else (cb[0] ^ 1 if (y >> i) & 1 else 0)
                                for i in range(w)))
    if c.op == "bits":
        # a choice by one bit between bit vectors that differ in that bit only
        bx, by = bits(x, w), bits(y, w)
        if bx is not None and by is not None:
            l = c.args[0]
            out = []
            for p, q in zip(bx, by):
                p = 1 if p == l else 0 if p == l ^ 1 else p
                q = 0 if q == l else 1 if q == l ^ 1 else q
                if p == q:
                    out.append(p)
                elif p < 2 and q < 2:
                    out.append(l if p else l ^ 1)
                else:
                    break
            else:
                return mkbits(tuple(out))
    fx, fy = facts_of(c, True), facts_of(c, False)
    xu, xs = rng_under(x, w, fx)
    yu, ys = rng_under(y, w, fy)
    if type(x) is T and xu[0] == xu[1] or type(y) is T and yu[0] == yu[1]:
        return itew(c, xu[0] if xu[0] == xu[1] else x, yu[0] if yu[0] == yu[1] else y, w)
    return mk("ite", w, (c, x, y), (min(xu[0], yu[0]), max(xu[1], yu[1]), min(xs[0], ys[0]), max(xs[1], ys[1])))


class Facts:
    """interval facts, chained"""
    __slots__ = ("by", "par", "depth", "lins")

    def __init__(self, lst=(), par=None):
        by = {}
        lins = []
        for f in lst:
            by.setdefault(f[0], []).append(f)
            if f[0].op == "lin":
                lins.append(f)
        self.by, self.lins = by, lins
        if par is not None and not par.by and par.par is None:
            par = None
        self.par = par
        self.depth = 0 if par is None else par.depth + 1
        if self.depth > 8:
            while par is not None:
                for k, v in par.by.items():
                    if k in by:
                        by[k] = by[k] + v
                    else:
                        by[k] = v
                lins.extend(par.lins)
                par = par.par
            self.par = None
            self.depth = 0

    def __bool__(self):
        return bool(self.by) or self.par is not None

    def get(self, t):
        f = self.by.get(t, ())
        p = self.par
        while p is not None:
            g = p.by.get(t)
            if g:
                f = tuple(f) + tuple(g)
            p = p.par
        return f

    def __add__(self, o):
        if not self:
            return o
        if not o:
            return self
        r = Facts((), self)
        if r.par is None:      # flattened copy
            for k, v in o.by.items():
                r.by[k] = r.by.get(k, []) + v
            r.lins = r.lins + o.lins
        else:
            r.by, r.lins = o.by, o.lins
        q = o.par
        while q is not None:
            by = dict(r.by)
            for k, v in q.by.items():
                by[k] = by.get(k, []) + v
            r.by = by
            r.lins = r.lins + q.lins
            q = q.par
        return r

    def all_lins(self):
        p = self
        while p is not None:
            yield from p.lins
            p = p.par


NOFACTS = Facts()
FCACHE = {}


def facts_of(c, val):
    """interval facts implied by the truth value of boolean c: list of (T, 'u'/'s', lo, hi)"""
    r = FCACHE.get((c, val))
    if r is not None:
        return r
    out = []
    _facts(c, val, out)
    for f in list(out):
        t = f[0]
        while type(t) is T and f[1] == "u" and t.ex is not None:
            t = t.ex
            out.append((t,) + f[1:])
        t = f[0]
        if type(t) is T and t.op == "lin" and t.w > 8:
            # the same sum in narrower widths it fits
            for wi in (16, 32):
                if wi < t.w and (t.uhi < 1 << wi if f[1] == "u" else -(1 << (wi - 1)) <= t.slo and t.shi < 1 << (wi - 1)):
                    n = trunc(t, t.w, wi)
                    if type(n) is T:
                        out.append((n,) + f[1:])
    r = Facts(out)
    FCACHE[(c, val)] = r
    return r


def _facts(c, val, out):
    if type(c) is int:
        return
    if c.op == "not":
        return _facts(c.args[0], not val, out)
    if c.op == "band":
        if val:
            for x in c.args[0]:
                _facts(x, True, out)
        elif len(c.args[0]) == 1:
            for x in c.args[0]:
                _facts(x, False, out)
        return
    if c.op in ("ult", "slt"):
        a, b = c.args
        k = c.op[0]
        wa = a.w if type(a) is T else b.w
        if type(b) is int:
            bb = b if k == "u" else sgn(b, wa)
            if val:
                out.append((a, k, None, bb - 1))
            else:
                out.append((a, k, bb, None))
        elif type(a) is int:
            aa = a if k == "u" else sgn(a, wa)
            if val:
                out.append((b, k, aa + 1, None))
            else:
                out.append((b, k, None, aa))
        else:
            ra = (a.ulo, a.uhi) if k == "u" else (a.slo, a.shi)
            rb = (b.ulo, b.uhi) if k == "u" else (b.slo, b.shi)
            if val:
                out.append((a, k, None, rb[1] - 1))
                out.append((b, k, ra[0] + 1, None))
            else:
                out.append((a, k, rb[0], None))
                out.append((b, k, None, ra[1]))
    elif c.op == "eq":
        a, b = c.args
        if type(b) is int:
            if val:
                out.append((a, "u", b, b))
            else:
                if a.ulo == b:
                    out.append((a, "u", b + 1, None))
                if a.uhi == b:
                    out.append((a, "u", None, b - 1))
                if a.slo == sgn(b, a.w):
                    out.append((a, "s", a.slo + 1, None))
        elif val:
            out.append((a, "u", b.ulo, b.uhi))
            out.append((b, "u", a.ulo, a.uhi))
            out.append((a, "s", b.slo, b.shi))
            out.append((b, "s", a.slo, a.shi))
    elif c.op == "bits":
        x = c.args[0]
        v = int(bool(val)) ^ (x & 1)
        out.append((mkbits((x & ~1,)), "u", v, v))
    else:
        out.append((c, "u", int(bool(val)), int(bool(val))))


def _meet(r, f):
    """apply one fact to (ulo,uhi,slo,shi)"""
    u0, u1, s0, s1 = r
    _, k, lo, hi = f
    if k == "u":
        if lo is not None and lo > u0:
            u0 = lo
        if hi is not None and hi < u1:
            u1 = hi
    else:
        if lo is not None and lo > s0:
            s0 = lo
        if hi is not None and hi < s1:
            s1 = hi
    return (u0, u1, s0, s1)


def reduce4(r, w):
    u0, u1, s0, s1 = r
    M = 1 << w
    H = M >> 1
    for _ in (0, 1):
        if s0 >= 0:
            u0, u1 = max(u0, s0), min(u1, s1)
        elif s1 < 0:
            u0, u1 = max(u0, s0 + M), min(u1, s1 + M)
        if u1 < H:
            s0, s1 = max(s0, u0), min(s1, u1)
        elif u0 >= H:
            s0, s1 = max(s0, u0 - M), min(s1, u1 - M)
    return (u0, u1, s0, s1)


def rng_under(v, w, facts, depth=6):
    """(u-range, s-range) of v when the given facts hold"""
    if type(v) is int:
        s = sgn(v, w)
        return (v, v), (s, s)
    if facts is None or not facts:
        return (v.ulo, v.uhi), (v.slo, v.shi)
    r = _rng(v, facts, depth, {})
    return (r[0], r[1]), (r[2], r[3])


def _rng4(v, w, facts, d, memo):
    if type(v) is int:
        s = sgn(v, w)
        return (v, v, s, s)
    return _rng(v, facts, d, memo)


def _rng(v, facts, d, memo):
    if v in memo:
        return memo[v]
    r = (v.ulo, v.uhi, v.slo, v.shi)
    for f in facts.get(v):
        r = _meet(r, f)
    if d > 0:
        r2 = None
        if v.op == "lin":
            for f in facts.all_lins():
                if f[0].w == v.w and f[0] is not v:
                    r2 = lin_range_sub(v.args[0], v.args[1], v.w, facts, d - 1, memo)
                    break
            else:
                r2 = lin_range(v.args[0], v.args[1], v.w, lambda b: _rng(b, facts, d - 1, memo))
        elif v.op == "bits" and v.w > 1:
            t = trimmed(v)
            if t is not v:
                a = _rng(t, facts, d - 1, memo)
                r2 = (a[0], a[1], a[0], a[1])
            else:
                bs = v.args
                k = v.w
                while k > 1 and bs[k - 1] == bs[k - 2]:
                    k -= 1
                k = storage(k)
                if k < v.w:
                    a = _rng(mkbits(bs[:k]), facts, d - 1, memo)
                    r2 = (0, (1 << v.w) - 1, a[2], a[3])
                else:
                    r2 = bits_under(bs, facts)
        elif v.op == "zext":
            a = _rng(v.args[0], facts, d - 1, memo)
            r2 = (a[0], a[1], a[0], a[1])
        elif v.op == "sext":
            a = _rng(v.args[0], facts, d - 1, memo)
            r2 = (0, (1 << v.w) - 1, a[2], a[3])
        elif v.op == "trunc":
            a = _rng(v.args[0], facts, d - 1, memo)
            r2 = trunc_range(a, v.w)
        elif v.op == "ite":
            c = v.args[0]
            fa = facts + facts_of(c, True)
            fb = facts + facts_of(c, False)
            x = _rng4(v.args[1], v.w, fa, d - 1, {})
            y = _rng4(v.args[2], v.w, fb, d - 1, {})
            # a contradictory branch contributes nothing
            xe = x[0] > x[1] or x[2] > x[3] or contradicts(c, True, facts)
            ye = y[0] > y[1] or y[2] > y[3] or contradicts(c, False, facts)
            if xe and not ye:
                r2 = y
            elif ye and not xe:
                r2 = x
            else:
                r2 = (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]))
        elif v.op == "urem" and type(v.args[1]) is int:
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            m = v.args[1]
            if m and a[0] // m == a[1] // m:
                k = a[0] // m * m
                r2 = (a[0] - k, a[1] - k, r[2], r[3])
        elif v.op == "lshr" and type(v.args[1]) is int:
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            k = v.args[1]
            r2 = (a[0] >> k, a[1] >> k, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
        elif v.op == "ashr" and type(v.args[1]) is int:
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            k = v.args[1]
            r2 = (0, (1 << v.w) - 1, a[2] >> k, a[3] >> k)
        elif v.op == "mul":
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            b = _rng4(v.args[1], v.w, facts, d - 1, memo)
            r2 = mul_range(a, b, v.w)
        elif v.op == "add2":
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            b = _rng4(v.args[1], v.w, facts, d - 1, memo)
            r2 = add_range(a, b, v.w)
        elif v.op == "and" and type(v.args[1]) is int:
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            r2 = (0, min(a[1], v.args[1]), -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
        elif v.op in ("umin", "umax", "smin", "smax"):
            a = _rng4(v.args[0], v.w, facts, d - 1, memo)
            b = _rng4(v.args[1], v.w, facts, d - 1, memo)
            r2 = minmax_range(v.op, a, b, v.w)
        if r2 is not None:
            r = (max(r[0], r2[0]), min(r[1], r2[1]), max(r[2], r2[2]), min(r[3], r2[3]))
    r = reduce4(r, v.w)
    memo[v] = r
    return r


def bits_under(bs, facts):
    """range of a bit vector when some of its literals are known"""
    out = None
    for i, b in enumerate(bs):
        if b > 1:
            for f in facts.get(mkbits((b & ~1,))):
                if f[1] == "u" and f[2] == f[3]:
                    if out is None:
                        out = list(bs)
                    out[i] = f[2] ^ (b & 1)
                    break
    if out is None:
        return None
    t = mkbits(tuple(out))
    if type(t) is int:
        s = sgn(t, len(bs))
        return (t, t, s, s)
    return (t.ulo, t.uhi, t.slo, t.shi)


def contradicts(c, val, facts):
    """do the interval facts exclude c == val ?"""
    x = c.args[0] if c.op == "not" else c
    if x.op == "band" and len(x.args[0]) > 24:
        return False
    t = truth_under(c, facts)
    return t is not None and t != (1 if val else 0)


def truth_under(c, facts, depth=5):
    if type(c) is int:
        return c
    if c.op == "not":
        t = truth_under(c.args[0], facts, depth)
        return None if t is None else 1 - t
    if c.op == "band":
        allt = True
        for x in c.args[0]:
            t = truth_under(x, facts, depth)
            if t == 0:
                return 0
            if t is None:
                allt = False
        return 1 if allt else None
    if c.op in ("ult", "slt", "eq"):
        a, b = c.args
        w = a.w if type(a) is T else b.w
        au, as_ = rng_under(a, w, facts, depth)
        bu, bs = rng_under(b, w, facts, depth)
        if c.op == "ult":
            if au[1] < bu[0]:
                return 1
            if au[0] >= bu[1]:
                return 0
        elif c.op == "slt":
            if as_[1] < bs[0]:
                return 1
            if as_[0] >= bs[1]:
                return 0
        else:
            if au[1] < bu[0] or bu[1] < au[0] or as_[1] < bs[0] or bs[1] < as_[0]:
                return 0
            if au[0] == au[1] == bu[0] == bu[1]:
                return 1
    return None


# ------------------------------------------------------------ linear forms
def lin_of(v, w):
    if type(v) is int:
        return v, ()
    if v.op == "lin":
        return v.args
    return 0, ((v, 1),)


def lin_range(c, bs, w, rf=None):
    """range of c + sum k*b, c,k modulo 2^w"""
    M = 1 << w
    H = M >> 1
    # math value with bases taken unsigned
    cs = sgn(c, w)
    u0 = u1 = s0 = s1 = cs
    for b, k in bs:
        k = sgn(k, w)
        if rf is None:
            b0, b1, t0, t1 = b.ulo, b.uhi, b.slo, b.shi
        else:
            b0, b1, t0, t1 = rf(b)
        if k > 0:
            u0 += k * b0
            u1 += k * b1
            s0 += k * t0
            s1 += k * t1
        else:
            u0 += k * b1
            u1 += k * b0
            s0 += k * t1
            s1 += k * t0
    ul, uh, sl, sh = 0, M - 1, -H, H - 1
    for lo, hi in ((u0, u1), (s0, s1)):
        f = lo >> w
        if hi >> w == f:
            ul, uh = max(ul, lo - (f << w)), min(uh, hi - (f << w))
        f = (lo + H) >> w
        if (hi + H) >> w == f:
            sl, sh = max(sl, lo - (f << w)), min(sh, hi - (f << w))
    return (ul, uh, sl, sh)


def lin_sub_math(c, bs, w, facts, depth=4, memo=None):
    """unsigned-base interval of the mathematical sum; facts may be about sub-sums"""
    memo = {} if memo is None else memo

    def rg(b):
        r = _rng(b, facts, depth, memo)
        return r[:2], r[2:]
    cs = sgn(c, w)
    lo = hi = cs
    for b, k in bs:
        k = sgn(k, w)
        u, _ = rg(b)
        lo += k * (u[0] if k > 0 else u[1])
        hi += k * (u[1] if k > 0 else u[0])
    d = dict(bs)
    for f in facts.all_lins():
        L = f[0]
        if L.w != w:
            continue
        lc, lb = L.args
        l0, l1 = lin_math2(lc, lb, w, False)
        if f[1] != "u":
            if l0 < -(1 << (w - 1)) or l1 >= 1 << (w - 1):
                continue
        elif l0 < 0 or l1 >= 1 << w:
            # machine value and mathematical sum coincide if one wrap would leave
            # the interval the sum is known to lie in
            if l0 <= L.uhi - (1 << w) or l1 >= L.ulo + (1 << w):
                continue
            l0, l1 = L.ulo, L.uhi
        m = None
        ok = True
        for b, k in lb:
            if b not in d:
                ok = False
                break
            k, kk = sgn(k, w), sgn(d[b], w)
            if kk % k:
                ok = False
                break
            q = kk // k
            if m is None or abs(q) < abs(m):
                m = q
        if not ok or not m:
            continue
        a0 = l0 if f[2] is None else max(l0, f[2])
        a1 = l1 if f[3] is None else min(l1, f[3])
        e = dict(d)
        for b, k in lb:
            e[b] = sgn(e[b], w) - m * sgn(k, w)
        x0 = x1 = cs - m * sgn(lc, w)
        for b, k in e.items():
            k = sgn(k & ((1 << w) - 1), w)
            if k:
                u, _ = rg(b)
                x0 += k * (u[0] if k > 0 else u[1])
                x1 += k * (u[1] if k > 0 else u[0])
        x0 += m * (a0 if m > 0 else a1)
        x1 += m * (a1 if m > 0 else a0)
        lo, hi = max(lo, x0), min(hi, x1)
    return lo, hi


def lin_range_sub(c, bs, w, facts, depth=4, memo=None):
    memo = {} if memo is None else memo
    r = lin_range(c, bs, w, lambda bb: _rng(bb, facts, depth, memo))
    lo, hi = lin_sub_math(c, bs, w, facts, depth, memo)
    M = 1 << w
    H = M >> 1
    ul, uh, sl, sh = r
    f = lo >> w
    if hi >> w == f:
        ul, uh = max(ul, lo - (f << w)), min(uh, hi - (f << w))
    f = (lo + H) >> w
    if (hi + H) >> w == f:
        sl, sh = max(sl, lo - (f << w)), min(sh, hi - (f << w))
    return reduce4((ul, uh, sl, sh), w)


def lin_math(c, bs, w, signed, facts=None):
    """exact interval of the mathematical sum (no wrapping) over signed/unsigned bases"""
    cs = sgn(c, w)
    lo = hi = cs
    for b, k in bs:
        k = sgn(k, w)
        u, s = rng_under(b, w, facts)
        r = s if signed else u
        lo += k * (r[0] if k > 0 else r[1])
        hi += k * (r[1] if k > 0 else r[0])
    return lo, hi


def mklin(c, d, w, hint=None):
    M = (1 << w) - 1
    c &= M
    bs = tuple(sorted(((b, k & M) for b, k in d.items() if k & M), key=lambda z: z[0].id))
    if not bs:
        return c
    if c == 0 and len(bs) == 1 and bs[0][1] == 1:
        return bs[0][0]
    r = None
    for (b, k) in bs:
        if b.op == "zext" and type(b.args[0]) is T and b.args[0].w == 1 and len(bs) <= 4:
            cond = b.args[0]
            rest = tuple(z for z in bs if z[0] is not b)
            rr = []
            for val in (0, 1):
                fa = facts_of(cond, bool(val))
                q = lin_range_sub((c + (k if val else 0)) & M, rest, w, fa)
                rr.append(q)
            x, y = rr
            r = (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]))
            break
    r2 = lin_range(c, bs, w)
    r = r2 if r is None else (max(r[0], r2[0]), min(r[1], r2[1]), max(r[2], r2[2]), min(r[3], r2[3]))
    if hint is not None:
        r = (max(r[0], hint[0]), min(r[1], hint[1]), max(r[2], hint[2]), min(r[3], hint[3]))
    k = ("lin", w, (c, bs))
    t = TAB.get(k)
    if t is None:
        t = _new("lin", w, (c, bs), *r)
        t.depth = max((b.depth for b, _ in bs), default=0)
        TAB[k] = t
    return t


def add_range(a, b, w):
    M = 1 << w
    H = M >> 1
    r = [0, M - 1, -H, H - 1]
    lo, hi = a[0] + b[0], a[1] + b[1]
    if lo >> w == hi >> w:
        f = (lo >> w) << w
        r[0], r[1] = lo - f, hi - f
    lo, hi = a[2] + b[2], a[3] + b[3]
    f = (lo + H) >> w
    if (hi + H) >> w == f:
        r[2], r[3] = lo - (f << w), hi - (f << w)
    return tuple(r)


def r4(v, w):
    if type(v) is T:
        return (v.ulo, v.uhi, v.slo, v.shi)
    s = sgn(v, w)
    return (v, v, s, s)


def neg_range(a, w):
    M = 1 << w
    H = M >> 1
    r = [0, M - 1, -H, H - 1]
    if a[0] > 0:
        r[0], r[1] = M - a[1], M - a[0]
    elif a[1] == 0:
        r[0] = r[1] = 0
    if a[2] > -H:
        r[2], r[3] = -a[3], -a[2]
    return tuple(r)


def mul_range(a, b, w):
    M = 1 << w
    H = M >> 1
    r = [0, M - 1, -H, H - 1]
    if a[1] * b[1] < M:
        r[0], r[1] = a[0] * b[0], a[1] * b[1]
    ps = (a[2] * b[2], a[2] * b[3], a[3] * b[2], a[3] * b[3])
    if min(ps) >= -H and max(ps) < H:
        r[2], r[3] = min(ps), max(ps)
    return tuple(r)


def trunc_range(a, w):
    M = 1 << w
    H = M >> 1
    r = [0, M - 1, -H, H - 1]
    if a[0] >> w == a[1] >> w:
        r[0], r[1] = a[0] & (M - 1), a[1] & (M - 1)
    f = (a[2] + H) >> w
    if (a[3] + H) >> w == f:
        r[2], r[3] = a[2] - (f << w), a[3] - (f << w)
    f = (a[0] + H) >> w
    if (a[1] + H) >> w == f:
        r[2], r[3] = max(r[2], a[0] - (f << w)), min(r[3], a[1] - (f << w))
    return tuple(r)


def minmax_range(op, a, b, w):
    if op == "umin":
        r = (min(a[0], b[0]), min(a[1], b[1]), -(1 << (w - 1)), (1 << (w - 1)) - 1)
    elif op == "umax":
        r = (max(a[0], b[0]), max(a[1], b[1]), -(1 << (w - 1)), (1 << (w - 1)) - 1)
    elif op == "smin":
        r = (0, (1 << w) - 1, min(a[2], b[2]), min(a[3], b[3]))
    else:
        r = (0, (1 << w) - 1, max(a[2], b[2]), max(a[3], b[3]))
    return r


# ------------------------------------------------------------ operations
def dist(op, w, a, b, f):
    """push a binary operation into a gated operand"""
    if type(a) is T and a.op == "ite":
        if type(b) is T and b.op == "ite":
            if b.args[0] is a.args[0]:
                return itew(a.args[0], f(a.args[1], b.args[1]), f(a.args[2], b.args[2]), w)
            return None
        if type(b) is int and a.depth <= 6:
            return itew(a.args[0], f(a.args[1], b), f(a.args[2], b), w)
    elif type(b) is T and b.op == "ite" and type(a) is int and b.depth <= 6:
        return itew(b.args[0], f(a, b.args[1]), f(a, b.args[2]), w)
    return None


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if w == 1:
        return bxor(a, b)
    if type(a) is T and a.op == "bits" and (type(b) is int or b.op == "bits"):
        r = ripple(a.args, bits(b, w), 0)
        if r is not None:
            return mkbits(r)
    elif type(b) is T and b.op == "bits" and type(a) is int:
        r = ripple(b.args, bits(a, w), 0)
        if r is not None:
            return mkbits(r)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    r = dist("add", w, a, b, lambda x, y: add(x, y, w))
    if r is not None:
        return r
    ca, la = lin_of(a, w)
    cb, lb = lin_of(b, w)
    hint = add_range(r4(a, w), r4(b, w), w)
    if len(la) + len(lb) > LINMAX:
        if type(a) is T and type(b) is T and a.id > b.id:
            a, b = b, a
        return mk("add2", w, (a, b), hint)
    d = dict(la)
    for t, k in lb:
        d[t] = d.get(t, 0) + k
    return mklin(ca + cb, d, w, hint)


def neg(a, w):
    if type(a) is int:
        return (-a) & ((1 << w) - 1)
    if a.op == "bits":
        r = ripple((0,) * w, tuple(litneg(x) for x in a.args), 1)
        if r is not None:
            return mkbits(r)
    if a.op == "ite" and a.depth <= 6:
        return itew(a.args[0], neg(a.args[1], w), neg(a.args[2], w), w)
    c, l = lin_of(a, w)
    return mklin(-c, {t: -k for t, k in l}, w, neg_range(r4(a, w), w))


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if a is b:
        return 0
    if w == 1:
        return bxor(a, b)
    if type(b) is int and b == 0:
        return a
    ab, bb = bits(a, w), bits(b, w)
    if ab is not None and bb is not None:
        r = ripple(ab, tuple(litneg(x) for x in bb), 1)
        if r is not None:
            return mkbits(r)
    r = dist("sub", w, a, b, lambda x, y: sub(x, y, w))
    if r is not None:
        return r
    ca, la = lin_of(a, w)
    cb, lb = lin_of(b, w)
    hint = add_range(r4(a, w), neg_range(r4(b, w), w), w)
    if len(la) + len(lb) > LINMAX:
        return mk("add2", w, (a, neg(b, w)), hint)
    d = dict(la)
    for t, k in lb:
        d[t] = d.get(t, 0) - k
    res = mklin(ca - cb, d, w, hint)
    if type(res) is T and res.op == "lin":
        q = barrett(a, b, w)
        if q is not None:
            res.ulo, res.uhi = max(res.ulo, q[0]), min(res.uhi, q[1])
            if res.uhi < 1 << (w - 1):
                res.slo, res.shi = max(res.slo, res.ulo), min(res.shi, res.uhi)
    return res


def strip(v):
    """look through value-preserving widening/narrowing (unsigned view)"""
    while type(v) is T:
        if v.op == "zext":
            v = v.args[0]
        elif v.op == "trunc" and type(v.args[0]) is T and v.args[0].uhi < 1 << v.w:
            v = v.args[0]
        else:
            break
    return v


def barrett(a, b, w):
    """range of a - floor(a*R/2^k)*Q (exact rational argument)"""
    if type(b) is not T or type(a) is not T:
        return None
    c, l = lin_of(b, w)
    if c or len(l) != 1:
        return None
    t, q = l[0]
    t = strip(t)
    if type(t) is not T:
        return None
    if t.uhi * q >= 1 << w:
        return None
    if t.op == "udiv" and type(t.args[1]) is int and t.args[1] and t.args[1] == q:
        if strip(t.args[0]) is strip(a):
            return 0, q - 1
        return None
    if t.op != "lshr" or type(t.args[1]) is not int:
        return None
    k = t.args[1]
    m = t.args[0]
    c2, l2 = lin_of(m, t.w)
    a0 = strip(a)
    if a0.op == "lin":
        # a = c + sum k*b without wrapping, m = r*a
        ca, la = a0.args
        if lin_math2(ca, la, a0.w, False)[1] >= 1 << a0.w or lin_math2(ca, la, a0.w, False)[0] < 0:
            return None
        if len(la) != len(l2) or not la:
            return None
        da = {strip(b): sgn(k, a0.w) for b, k in la}
        dm = {strip(b): sgn(k, t.w) for b, k in l2}
        b0 = next(iter(da))
        r = dm.get(b0, 0) // da[b0]
        if r <= 0 or sgn(c2, t.w) != r * sgn(ca, a0.w) or any(dm.get(b) != r * k for b, k in da.items()):
            return None
        x0 = a0
    else:
        if c2 or len(l2) != 1:
            return None
        x, r = l2[0]
        x0 = strip(x)
    if type(x0) is T and x0 is a0:
        if x0.uhi * r >= 1 << t.w or a.uhi >= 1 << w:
            return None
        # a - (a*r/2^k - e)*q, e in [0, 1)  with denominators cleared
        K = 1 << k
        lo = min(a0.ulo * (K - r * q), a0.uhi * (K - r * q))
        hi = max(a0.ulo * (K - r * q), a0.uhi * (K - r * q)) + q * (K - 1)
        return -((-lo) // K), hi // K
    return None


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == "bits":
            if b & (b - 1) == 0:
                return shl(a, b.bit_length() - 1, w)
            nz = [(i, x) for i, x in enumerate(a.args) if x]
            if len(nz) == 1:
                i, x = nz[0]
                return mkbits(tuple(x if ((b << i) >> j) & 1 else 0 for j in range(w)))
        if a.op == "ite" and a.depth <= 6:
            return itew(a.args[0], mul(a.args[1], b, w), mul(a.args[2], b, w), w)
        c, l = lin_of(a, w)
        return mklin(c * b, {t: k * b for t, k in l}, w, mul_range(r4(a, w), r4(b, w), w))
    r = dist("mul", w, a, b, lambda x, y: mul(x, y, w))
    if r is not None:
        return r
    # boolean times value
    for x, y in ((a, b), (b, a)):
        if x.op == "zext" and type(x.args[0]) is T and x.args[0].w == 1:
            return itew(x.args[0], y, 0, w)
        bx = bits(x, w)
        if bx is not None and all(z == 0 for z in bx[1:]):
            return itew(mkbits((bx[0],)), y, 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", w, (a, b), mul_range(r4(a, w), r4(b, w), w))


def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        if a.op == "bits":
            return mkbits((0,) * b + a.args[:w - b])
        if b == 0:
            return a
        return mul(a, 1 << b, w)
    if type(b) is T and b.op == "ite" and b.depth <= 6 and type(b.args[1]) is int and type(b.args[2]) is int:
        return itew(b.args[0], shl(a, b.args[1], w), shl(a, b.args[2], w), w)
    M = (1 << w) - 1
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    r = None
    if b1 < w and (a1 << b1) <= M:
        H = 1 << (w - 1)
        r = (a0 << b0, a1 << b1, -H, H - 1)
    return mk("shl", w, (a, b), r)


def joined(a, w):
    """c + 2^k * bits as bits, where no carry can arise"""
    c, ((x, k),) = a.args
    if x.op != "bits" or k <= 0 or k & (k - 1):
        return a
    j = k.bit_length() - 1
    bs = ((0,) * j + x.args)[:w]
    out = []
    for i, b in enumerate(bs):
        if c >> i & 1:
            if b:
                return a
            b = 1
        out.append(b)
    return mkbits(tuple(out))


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        if a.op == "lin" and len(a.args[1]) == 1:
            a = joined(a, w)
        if a.op == "bits":
            return mkbits(a.args[b:] + (0,) * b)
        if a.op == "ite" and a.depth <= 6:
            return itew(a.args[0], lshr(a.args[1], b, w), lshr(a.args[2], b, w), w)
        if a.uhi >> b == a.ulo >> b:
            return a.ulo >> b
        if a.op == "lshr" and type(a.args[1]) is int:
            return lshr(a.args[0], a.args[1] + b, w) if a.args[1] + b < w else 0
        H = 1 << (w - 1)
        return mk("lshr", w, (a, b), (a.ulo >> b, a.uhi >> b, -H, H - 1))
    if type(b) is T and b.op == "ite" and b.depth <= 6 and type(b.args[1]) is int and type(b.args[2]) is int:
        return itew(b.args[0], lshr(a, b.args[1], w), lshr(a, b.args[2], w), w)
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    H = 1 << (w - 1)
    return mk("lshr", w, (a, b), (a0 >> b1 if b1 < 200 else 0, a1 >> b0 if b0 < 200 else 0, -H, H - 1))


def ashr(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1)
        if b == 0:
            return a
        if a.op == "bits":
            b = min(b, w)
            return mkbits(a.args[b:] + (a.args[-1],) * b)
        if a.slo >= 0:
            return lshr(a, b, w)
        if a.op == "ite" and a.depth <= 6:
            return itew(a.args[0], ashr(a.args[1], b, w), ashr(a.args[2], b, w), w)
        if a.slo >> b == a.shi >> b:
            return (a.slo >> b) & ((1 << w) - 1)
        if b >= w - 1:
            return itew(slt(a, 0, w), (1 << w) - 1, 0, w)
        return mk("ashr", w, (a, b), (0, (1 << w) - 1, a.slo >> b, a.shi >> b))
    if type(a) is T and a.slo >= 0:
        return lshr(a, b, w)
    s0, s1 = srng(a, w)
    b0, b1 = urng(b)
    return mk("ashr", w, (a, b), (0, (1 << w) - 1, min(s0, 0) if s0 < 0 else 0, max(s1, 0)))


def and_(a, b, w):
    if w == 1:
        return band(a, b)
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if a is b:
        return a
    full = (1 << w) - 1
    if type(b) is int:
        if b == 0:
            return 0
        if b == full:
            return a
    ba, bb = bits(a, w), bits(b, w)
    if ba is not None and bb is not None:
        out = []
        for x, y in zip(ba, bb):
            if x == 0 or y == 0:
                out.append(0)
            elif x == 1:
                out.append(y)
            elif y == 1 or x == y:
                out.append(x)
            elif x == y ^ 1:
                out.append(0)
            else:
                out = None
                break
        if out is not None:
            return mkbits(tuple(out))
    pa, pb = asbool(a), asbool(b)
    if pa is not None and pb is not None:
        return zext(band(pa, pb), 1, w)
    r = dist("and", w, a, b, lambda x, y: and_(x, y, w))
    if r is not None:
        return r
    H = 1 << (w - 1)
    if type(b) is int:
        # mask covers the value, or keeps a low field
        if b & (b + 1) == 0 and a.uhi <= b:
            return a
        if a.op == "zext" and type(a.args[0]) is T:
            wi = a.args[0].w
            return zext(and_(a.args[0], b & ((1 << wi) - 1), wi), wi, w)
        if b & (b + 1) == 0:
            k = b.bit_length()
            if a.ulo >> k == a.uhi >> k:
                f = (a.ulo >> k) << k
                return sub(a, f, w)
            # low field of a linear form: reduce coefficients
            return zext(trunc(a, w, k), k, w)
        if b.bit_count() == 1:
            k = b.bit_length() - 1
            ab = abits(a, w)
            if ab is not None:
                return mkbits(tuple(ab[i] if i == k else 0 for i in range(w)))
    # mask built from a boolean: (0 - zext b) & x
    for x, y in ((a, b), (b, a)):
        if type(x) is T and x.op == "lin" and x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == full:
            z = x.args[1][0][0]
            if z.op == "zext" and z.args[0].w == 1:
                return itew(z.args[0], y, 0, w)
        if type(x) is T and x.op == "sext" and x.args[0].w == 1:
            return itew(x.args[0], y, 0, w)
        bx = bits(x, w)
        if bx is not None and bx[0] > 1 and all(q == bx[0] for q in bx):
            return itew(mkbits((bx[0],)), y, 0, w)
    ua, ub = urng(a), urng(b)
    if type(a) is T and type(b) is T and a.id > b.id:
        a, b = b, a
    return mk("and", w, (a, b), (0, min(ua[1], ub[1]), -H, H - 1))


def or_(a, b, w):
    if w == 1:
        return bor(a, b)
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int:
        a, b = b, a
    if a is b:
        return a
    if type(b) is int and b == 0:
        return a
    ba, bb = bits(a, w), bits(b, w)
    if ba is not None and bb is not None:
        out = []
        for x, y in zip(ba, bb):
            if x == 1 or y == 1:
                out.append(1)
            elif x == 0:
                out.append(y)
            elif y == 0 or x == y:
                out.append(x)
            elif x == y ^ 1:
                out.append(1)
            else:
                out = None
                break
        if out is not None:
            return mkbits(tuple(out))
    pa, pb = asbool(a), asbool(b)
    if pa is not None and pb is not None:
        return zext(bor(pa, pb), 1, w)
    r = dist("or", w, a, b, lambda x, y: or_(x, y, w))
    if r is not None:
        return r
    # disjoint fields: same as addition
    if disjoint(a, b, w):
        return add(a, b, w)
    ua, ub = urng(a), urng(b)
    hi = (1 << max(ua[1].bit_length(), ub[1].bit_length())) - 1
    if type(a) is T and type(b) is T and a.id > b.id:
        a, b = b, a
    H = 1 << (w - 1)
    return mk("or", w, (a, b), (max(ua[0], ub[0]), hi, -H, H - 1))


def tz(v, w):
    """number of known trailing zero bits"""
    if type(v) is int:
        return (v & -v).bit_length() - 1 if v else w
    if v.op == "lin":
        r = tz(v.args[0], w)
        for b, k in v.args[1]:
            r = min(r, (k & -k).bit_length() - 1 + tz(b, w))
        return r
    if v.op == "bits":
        n = 0
        for x in v.args:
            if x:
                return n
            n += 1
        return n
    if v.op == "zext":
        return min(tz(v.args[0], v.args[0].w), w)
    if v.op == "ite":
        return min(tz(v.args[1], w), tz(v.args[2], w))
    if v.op == "shl":
        if type(v.args[1]) is T:
            return min(w, tz(v.args[0], w) + v.args[1].ulo)
    return 0


def disjoint(a, b, w):
    ua, ub = urng(a)[1], urng(b)[1]
    return ua.bit_length() <= tz(b, w) or ub.bit_length() <= tz(a, w)


def xor_(a, b, w):
    if w == 1:
        return bxor(a, b)
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int:
        a, b = b, a
    if a is b:
        return 0
    if type(b) is int and b == 0:
        return a
    ba, bb = bits(a, w), bits(b, w)
    if ba is not None and bb is not None:
        out = []
        for x, y in zip(ba, bb):
            if x < 2:
                out.append(litneg(y) if x else y)
            elif y < 2:
                out.append(litneg(x) if y else x)
            elif x == y:
                out.append(0)
            elif x == y ^ 1:
                out.append(1)
            else:
                out = None
                break
        if out is not None:
            return mkbits(tuple(out))
    r = dist("xor", w, a, b, lambda x, y: xor_(x, y, w))
    if r is not None:
        return r
    if type(b) is int and b == (1 << w) - 1:
        return sub(b, a, w)
    if disjoint(a, b, w):
        return add(a, b, w)
    if type(b) is T and a.id > b.id:
        a, b = b, a
    ua, ub = urng(a), urng(b)
    hi = (1 << max(ua[1].bit_length(), ub[1].bit_length())) - 1
    H = 1 << (w - 1)
    return mk("xor", w, (a, b), (0, hi, -H, H - 1))


def zext(a, wi, w):
    if type(a) is int:
        return a
    if wi == w:
        return a
    if a.op == "bits":
        return mkbits(a.args + (0,) * (w - wi))
    if a.op == "ite" and a.depth <= 6:
        return itew(a.args[0], zext(a.args[1], wi, w), zext(a.args[2], wi, w), w)
    if a.op == "zext":
        return zext(a.args[0], a.args[0].w, w)
    if a.ex is not None and a.ex.w == w:
        return a.ex
    if a.op == "trunc" and type(a.args[0]) is T and a.args[0].w == w and a.args[0].uhi < 1 << wi:
        return a.args[0]
    if a.op == "lin":
        # exact widening of a linear form that does not wrap
        c, bs = a.args
        lo, hi = lin_math(c, bs, wi, False)
        if lo >= 0 and hi < 1 << wi:
            r = mklin(sgn(c, wi), {}, w)
            d = {}
            const = sgn(c, wi)
            for b, k in bs:
                z = zext(b, wi, w)
                cz, lz = lin_of(z, w)
                const += cz * sgn(k, wi)
                for t, kk in lz:
                    d[t] = d.get(t, 0) + kk * sgn(k, wi)
            return mklin(const, d, w, (a.ulo, a.uhi, a.ulo, a.uhi))
    return mk("zext", w, (a,), (a.ulo, a.uhi, a.ulo, a.uhi))


def sext(a, wi, w):
    if type(a) is int:
        return sgn(a, wi) & ((1 << w) - 1)
    if wi == w:
        return a
    if a.op == "bits":
        return mkbits(a.args + (a.args[-1],) * (w - wi))
    if a.slo >= 0:
        return zext(a, wi, w)
    if a.op == "ite" and a.depth <= 6:
        return itew(a.args[0], sext(a.args[1], wi, w), sext(a.args[2], wi, w), w)
    if a.op == "sext":
        return sext(a.args[0], a.args[0].w, w)
    if a.op == "lin":
        c, bs = a.args
        lo, hi = lin_math(c, bs, wi, True)
        if lo >= -(1 << (wi - 1)) and hi < 1 << (wi - 1):
            d = {}
            const = sgn(c, wi)
            for b, k in bs:
                z = sext(b, wi, w)
                cz, lz = lin_of(z, w)
                const += sgn(cz, w) * sgn(k, wi)
                for t, kk in lz:
                    d[t] = d.get(t, 0) + sgn(kk, w) * sgn(k, wi)
            return mklin(const, d, w, (0, (1 << w) - 1, a.slo, a.shi))
    return mk("sext", w, (a,), (0, (1 << w) - 1, a.slo, a.shi))


FLAGS = {}


def trunc(a, wi, w):
    if type(a) is int:
        return a & ((1 << w) - 1)
    if wi == w:
        return a
    if a.op == "bits":
        return mkbits(a.args[:w])
    if a.op in ("zext", "sext"):
        x = a.args[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, x.w, w)
        return (zext if a.op == "zext" else sext)(x, x.w, w)
    if a.op == "ite" and a.depth <= 6:
        return itew(a.args[0], trunc(a.args[1], wi, w), trunc(a.args[2], wi, w), w)
    if a.op == "ite" and w == 1 and a.uhi <= 1:
        # a flag kept in a byte
        r = FLAGS.get(a)
        if r is None:
            r = FLAGS[a] = itew(a.args[0], trunc(a.args[1], wi, 1), trunc(a.args[2], wi, 1), 1)
        return r
    if a.op == "trunc":
        return trunc(a.args[0], a.args[0].w, w)
    if a.op == "and" and type(a.args[1]) is int and w > 1:
        m = a.args[1] & ((1 << w) - 1)
        if m == 0:
            return 0
        if m == (1 << w) - 1:
            return trunc(a.args[0], wi, w)
    if a.op == "or" and w > 1 and type(a.args[0]) is T and type(a.args[1]) is T:
        return or_(trunc(a.args[0], wi, w), trunc(a.args[1], wi, w), w)
    if w == 1:
        # odd/even test
        ab = abits(a, wi)
        if ab is not None:
            return mkbits((ab[0],))
    if a.op == "lin":
        c, bs = a.args
        d = {}
        const = c
        for b, k in bs:
            if k & ((1 << w) - 1) == 0:
                continue
            z = trunc(b, wi, w)
            cz, lz = lin_of(z, w)
            const += cz * k
            for t, kk in lz:
                d[t] = d.get(t, 0) + kk * k
        r = mklin(const, d, w, trunc_range(r4(a, wi), w))
        if type(r) is T and r.op == "lin" and a.uhi < 1 << w and r.ex is None:
            r.ex = a.ex if a.ex is not None else a
            r.ulo, r.uhi = max(r.ulo, a.ulo), min(r.uhi, a.uhi)
        return r
    return mk("trunc", w, (a,), trunc_range(r4(a, wi), w))


def udiv(a, b, w):
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    if a1 < b0:
        return 0
    H = 1 << (w - 1)
    return mk("udiv", w, (a, b), (a0 // max(b1, 1), a1 // max(b0, 1), -H, H - 1))


def urem(a, b, w):
    if type(a) is int and type(b) is int:
        return a % b
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    if a1 < b0:
        return a
    if type(b) is int and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    H = 1 << (w - 1)
    return mk("urem", w, (a, b), (0, min(a1, max(b1 - 1, 0)), -H, H - 1))


def sdiv(a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    s0, s1 = srng(a, w)
    t0, t1 = srng(b, w)
    if s0 >= 0 and t0 > 0:
        return udiv(a, b, w)
    mx = max(abs(s0), abs(s1))
    return mk("sdiv", w, (a, b), (0, m, -mx, mx))


def srem(a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & m
    s0, s1 = srng(a, w)
    t0, t1 = srng(b, w)
    if s0 >= 0 and t0 > 0:
        return urem(a, b, w)
    mx = max(abs(t0), abs(t1)) - 1
    return mk("srem", w, (a, b), (0, m, max(s0, -mx) if s0 < 0 else 0, min(s1, mx) if s1 > 0 else 0))


def _ltbits(bs, c, w):
    """literal vector < constant (unsigned), as boolean"""
    r = 0
    for i in range(w):
        x = mkbits((bs[i],)) if bs[i] > 1 else bs[i]
        if (c >> i) & 1:
            r = bor(bnot(x), r)
        else:
            r = band(bnot(x), r)
    return r


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    if a1 < b0:
        return 1
    if a0 >= b1:
        return 0
    if w == 1:
        return band(bnot(a), b)
    if type(b) is int and type(a) is T:
        if a.op == "bits" and w <= 64:
            if simplelt(a.uhi.bit_length(), b):
                return _ltbits(a.args, b, w)
            return mk("ult", 1, (trimmed(a), b))
        if a.op == "zext":
            wi = a.args[0].w
            return ult(a.args[0], b, wi) if b < 1 << wi else 1
    elif type(a) is int and type(b) is T:
        if b.op == "bits":
            return bnot(ult(b, a + 1, w)) if a + 1 < 1 << w else 0
        if b.op == "zext":
            wi = b.args[0].w
            return ult(a, b.args[0], wi) if a < 1 << wi else 0
    elif a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0], a.args[0].w)
    r = dist("ult", 1, a, b, lambda x, y: ult(x, y, w))
    if r is not None:
        return r
    # difference of linear forms
    if type(a) is T and type(b) is T:
        ca, la = lin_of(a, w)
        cb, lb = lin_of(b, w)
        if la == lb:
            d = (cb - ca) & ((1 << w) - 1)
            lo, hi = b0 - a1, b1 - a0
            c1 = lo <= d <= hi
            c2 = lo <= d - (1 << w) <= hi
            if c1 and not c2:
                return 1 if d > 0 else 0
            if c2 and not c1:
                return 0
    # move constants of a wrap-free linear form to the other side
    if type(b) is int and a.op == "lin" and len(a.args[1]) == 1:
        c, ((t, k),) = a.args
        cs, ks = sgn(c, w), sgn(k, w)
        lo, hi = lin_math(c, a.args[1], w, False)
        if 0 <= lo and hi < 1 << w:
            if ks > 0:
                q = -((cs - b) // ks)  # ceil((b-cs)/ks)
                return ult(t, q, w) if 0 <= q < 1 << w else (0 if q < 0 else 1)
            # cs - |k| t < b  <=>  t > (cs-b)/|k|
            q = (cs - b) // -ks
            return ult(q, t, w) if 0 <= q < 1 << w else (1 if q < 0 else 0)
        lo, hi = lin_math(c, a.args[1], w, True)
        H = 1 << (w - 1)
        if 0 <= lo and hi < H and b < H:
            if ks > 0:
                q = -((cs - b) // ks)
                if -H <= q < H:
                    return slt(t, q & ((1 << w) - 1), w)
            else:
                q = (cs - b) // -ks
                if -H <= q < H:
                    return slt(q & ((1 << w) - 1), t, w)
    if type(a) is int and b.op == "lin" and len(b.args[1]) == 1:
        return bnot(ult(b, a + 1, w)) if a + 1 < 1 << w else 0
    if type(a) is int:
        return bnot(mk("ult", 1, (b, a + 1)))
    return mk("ult", 1, (a, b))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b:
        return 0
    a0, a1 = srng(a, w)
    b0, b1 = srng(b, w)
    if a1 < b0:
        return 1
    if a0 >= b1:
        return 0
    if a0 >= 0 and b0 >= 0:
        return ult(a, b, w)
    if type(b) is int and type(a) is T and a.op == "bits":
        if b == 0:
            return mkbits((a.args[-1],))
        k = w
        while k > 1 and a.args[k - 1] == a.args[k - 2]:
            k -= 1
        if simplelt(k, (b ^ (1 << (w - 1))) & ((1 << k) - 1)):
            return _ltbits(a.args[:-1] + (litneg(a.args[-1]),), b ^ (1 << (w - 1)), w)
        k = storage(k)
        if k < w:
            return mk("slt", 1, (mkbits(a.args[:k]), b & ((1 << k) - 1)))
        return mk("slt", 1, (a, b))
    if type(a) is int and type(b) is T and b.op == "bits" and a == (1 << w) - 1:
        return bnot(mkbits((b.args[-1],)))
    r = dist("slt", 1, a, b, lambda x, y: slt(x, y, w))
    if r is not None:
        return r
    if type(b) is int and a.op == "sext":
        wi = a.args[0].w
        return slt(a.args[0], b & ((1 << wi) - 1), wi)
    if type(a) is int and b.op == "sext":
        wi = b.args[0].w
        return slt(a & ((1 << wi) - 1), b.args[0], wi)
    if type(b) is int and a.op == "lin" and len(a.args[1]) == 1:
        c, ((t, k),) = a.args
        cs, ks = sgn(c, w), sgn(k, w)
        H = 1 << (w - 1)
        lo, hi = lin_math(c, a.args[1], w, True)
        if -H <= lo and hi < H:
            bs = sgn(b, w)
            if ks > 0:
                q = -((cs - bs) // ks)
                if -H <= q < H:
                    return slt(t, q & ((1 << w) - 1), w)
            else:
                q = (cs - bs) // -ks
                if -H <= q < H:
                    return slt(q & ((1 << w) - 1), t, w)
    if type(a) is int:
        s = sgn(a, w) + 1
        return bnot(slt(b, s & ((1 << w) - 1), w))
    if type(a) is T and type(b) is T:
        ca, la = lin_of(a, w)
        cb, lb = lin_of(b, w)
        if la == lb:
            d = sgn((cb - ca) & ((1 << w) - 1), w)
            lo, hi = b0 - a1, b1 - a0
            cands = [x for x in (d, d - (1 << w), d + (1 << w)) if lo <= x <= hi]
            if len(cands) == 1:
                return 1 if cands[0] > 0 else 0
    return mk("slt", 1, (a, b))


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    a0, a1 = urng(a)
    b0, b1 = urng(b)
    if a1 < b0 or b1 < a0:
        return 0
    s0, s1 = srng(a, w)
    t0, t1 = srng(b, w)
    if s1 < t0 or t1 < s0:
        return 0
    if type(a) is int:
        a, b = b, a
    if w == 1:
        return bnot(bxor(a, b))
    ba, bb = bits(a, w), bits(b, w)
    if ba is not None and bb is not None:
        r = 1
        for x, y in zip(ba, bb):
            if x < 2 and y < 2:
                if x != y:
                    return 0
            elif x < 2:
                r = band(r, mkbits((y if x else y ^ 1,)))
            elif y < 2:
                r = band(r, mkbits((x if y else x ^ 1,)))
            elif x == y:
                pass
            elif x == y ^ 1:
                return 0
            else:
                r = None
                break
            if type(r) is int and r == 0:
                return 0
        if r is not None:
            return r
    if type(b) is T and a.op == b.op and a.op in ("zext", "sext") and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0], a.args[0].w)
    if type(b) is int and b == 0 and a.op == "xor":
        return eq(a.args[0], a.args[1], w)
    if type(b) is int and a.op in ("zext", "sext"):
        wi = a.args[0].w
        f = zext if a.op == "zext" else sext
        bt = b & ((1 << wi) - 1)
        if f(bt, wi, w) != b:
            return 0
        return eq(a.args[0], bt, wi)
    r = dist("eq", 1, a, b, lambda x, y: eq(x, y, w))
    if r is not None:
        return r
    if type(b) is int and a.op == "ite":
        r = eqchain(a, b)
        if r is not None:
            return r
    ca, la = lin_of(a, w)
    cb, lb = lin_of(b, w)
    if la == lb:
        return 1 if ca == cb else 0
    if type(b) is int and len(la) == 1 and la[0][1] in (1, (1 << w) - 1) and a.op == "lin":
        v = (b - ca) & ((1 << w) - 1)
        if la[0][1] != 1:
            v = (-v) & ((1 << w) - 1)
        return eq(la[0][0], v, w)
    if type(b) is int and (b == 0 or b == a.ulo) and a.ulo == b:
        # x == lowest value: same as not (lo < x)
        if b == 0 and a.uhi == 1 and w > 1:
            pass
    if type(b) is T and a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (a, b))


def eqchain(a, b):
    """a == b for a choice among constants, one of the two sides of every choice being settled;
    None otherwise"""
    path = []
    while True:
        if type(a) is int:
            r = int(a == b)
            break
        if a.op != "ite":
            return None
        c, x, y = a.args
        if type(x) is int:
            path.append((c, True, int(x == b)))
            a = y
        elif type(y) is int:
            path.append((c, False, int(y == b)))
            a = x
        else:
            return None
    for c, side, t in reversed(path):
        if t == r and type(r) is int:
            continue
        n = c if side else bnot(c)
        r = bor(n, r) if t else band(bnot(n), r)
    return r


def icmp(pred, a, b, w):
    if pred == "eq":
        return eq(a, b, w)
    if pred == "ne":
        return bnot(eq(a, b, w))
    if pred == "ult":
        return ult(a, b, w)
    if pred == "ugt":
        return ult(b, a, w)
    if pred == "ule":
        return bnot(ult(b, a, w))
    if pred == "uge":
        return bnot(ult(a, b, w))
    if pred == "slt":
        return slt(a, b, w)
    if pred == "sgt":
        return slt(b, a, w)
    if pred == "sle":
        return bnot(slt(b, a, w))
    return bnot(slt(a, b, w))


def iabs(a, w):
    if type(a) is int:
        return abs(sgn(a, w)) & ((1 << w) - 1)
    if a.slo >= 0:
        return a
    if a.op == "ite":
        return itew(a.args[0], iabs(a.args[1], w), iabs(a.args[2], w), w)
    if a.shi <= 0:
        return neg(a, w)
    m = max(-a.slo, a.shi)
    return mk("abs", w, (a,), (0, m, -(1 << (w - 1)), (1 << (w - 1)) - 1))


def ctlz(a, w):
    if type(a) is int:
        return w - a.bit_length()
    b = bits(a, w)
    if b is not None:
        n = 0
        for x in reversed(b):
            if x == 1:
                return n
            if x != 0:
                break
            n += 1
        else:
            return w
        lo = n
    if a.op == "ite" and a.depth <= 6:
        return itew(a.args[0], ctlz(a.args[1], w), ctlz(a.args[2], w), w)
    return mk("ctlz", w, (a,), (w - a.uhi.bit_length(), w - a.ulo.bit_length(), 0, w))


def cttz(a, w):
    if type(a) is int:
        return (a & -a).bit_length() - 1 if a else w
    b = bits(a, w)
    if b is not None:
        n = 0
        for x in b:
            if x == 1:
                return n
            if x != 0:
                break
            n += 1
    return mk("cttz", w, (a,), (0, w, 0, w))


# ------------------------------------------------------------ piecewise form
class Split(Exception):
    pass


def piecewise(t, var, lo, hi, signed=False):
    """t as an exact piecewise-linear function of var in [lo,hi]:
    list of (lo, hi, a, b) meaning value = a*var + b, or None.
    Values are unsigned machine values unless signed."""
    work = [(lo, hi)]
    out = []
    n = 0
    while work:
        l, h = work.pop()
        n += 1
        if n > 20000:
            return None
        try:
            r = _pw(t, var, l, h, {})
        except Split as s:
            p = s.args[0]
            if not (l < p <= h):
                return None
            work.append((l, p - 1))
            work.append((p, h))
            continue
        if r is None:
            return None
        a, b, w = r
        if signed and w:
            H = 1 << (w - 1)
            # canonical signed view must not change inside the piece
            v0, v1 = a * l + b, a * h + b
            f = (v0 + H) >> w
            if (v1 + H) >> w != f:
                p = _cross(a, b, l, h, ((min(f, (v1 + H) >> w) + 1) << w) - H)
                work.append((l, p - 1))
                work.append((p, h))
                continue
            b -= f << w
        out.append((l, h, a, b))
    out.sort()
    # join equal neighbours
    res = []
    for p in out:
        if p[0] == p[1]:
            p = (p[0], p[1], 0, p[2] * p[0] + p[3])
        if res and res[-1][1] + 1 == p[0]:
            q = res[-1]
            for (a, b) in {(q[2], q[3]), (p[2], p[3])}:
                if all(x[2] * e + x[3] == a * e + b for x in (q, p) for e in (x[0], x[1])):
                    res[-1] = (q[0], p[1], a, b)
                    break
            else:
                res.append(p)
        else:
            res.append(p)
    return res


def _cross(a, b, l, h, thr):
    """smallest p in (l,h] such that (a*p+b >= thr) differs from at l"""
    at = a * l + b >= thr
    x, y = l, h
    while y - x > 1:
        m = (x + y) // 2
        if (a * m + b >= thr) == at:
            x = m
        else:
            y = m
    return y


def _pw(t, var, l, h, memo):
    """(a, b, w): math value of the unsigned view of t on [l,h]"""
    if type(t) is int:
        return (0, t, 0)
    if t in memo:
        return memo[t]
    r = _pw1(t, var, l, h, memo)
    memo[t] = r
    return r


def _norm(a, b, l, h, w):
    """bring a*x+b into [0,2^w) by a constant number of wraps, or split"""
    v0, v1 = a * l + b, a * h + b
    f = v0 >> w
    if v1 >> w == f:
        return (a, b - (f << w), w)
    thr = (min(f, v1 >> w) + 1) << w
    raise Split(_cross(a, b, l, h, thr))


def _pws(t, w, var, l, h, memo):
    """signed view"""
    r = _pw(t, var, l, h, memo)
    if r is None:
        return None
    a, b, _ = r
    H = 1 << (w - 1)
    v0, v1 = a * l + b, a * h + b
    f = (v0 + H) >> w
    if (v1 + H) >> w != f:
        raise Split(_cross(a, b, l, h, ((min(f, (v1 + H) >> w) + 1) << w) - H))
    return (a, b - (f << w))


def _pw1(t, var, l, h, memo):
    w = t.w
    if t is var:
        # var's range is given in its signed view if it can be negative
        return _norm(1, 0, l, h, w)
    op = t.op
    if op == "lin":
        c, bs = t.args
        a, b = 0, c
        for x, k in bs:
            r = _pw(x, var, l, h, memo)
            if r is None:
                return None
            k = sgn(k, w)
            a += k * r[0]
            b += k * r[1]
        return _norm(a, b, l, h, w)
    if op in ("zext",):
        r = _pw(t.args[0], var, l, h, memo)
        return None if r is None else (r[0], r[1], w)
    if op == "sext":
        r = _pws(t.args[0], t.args[0].w, var, l, h, memo)
        return None if r is None else _norm(r[0], r[1], l, h, w)
    if op == "trunc":
        r = _pw(t.args[0], var, l, h, memo)
        return None if r is None else _norm(r[0], r[1], l, h, w)
    if op == "ite":
        c = _pw(t.args[0], var, l, h, memo)
        if c is None or c[0] != 0:
            return None
        r = _pw(t.args[1] if c[1] else t.args[2], var, l, h, memo)
        return None if r is None else (r[0], r[1], w)
    if op == "not":
        r = _pw(t.args[0], var, l, h, memo)
        return None if r is None else (0, 1 - r[1], 1)
    if op == "band":
        res = 1
        for x in sorted(t.args[0], key=lambda z: z.id):
            r = _pw(x, var, l, h, memo)
            if r is None or r[0]:
                return None
            res &= r[1]
            if not res:
                break
        return (0, res, 1)
    if op == "bxor":
        r = [_pw(x, var, l, h, memo) for x in t.args]
        if None in r:
            return None
        return (0, r[0][1] ^ r[1][1], 1)
    if op in ("ult", "slt", "eq"):
        x, y = t.args
        wx = x.w if type(x) is T else y.w
        if op == "slt":
            r, s = [_pws(z, wx, var, l, h, memo) if type(z) is T else (0, sgn(z, wx)) for z in (x, y)]
        else:
            r, s = [_pw(z, var, l, h, memo) for z in (x, y)]
        if r is None or s is None:
            return None
        a, b = s[0] - r[0], s[1] - r[1]  # y - x
        v0, v1 = a * l + b, a * h + b
        if op == "eq":
            if v0 == 0 and v1 == 0:
                return (0, 1, 1)
            if (v0 > 0) == (v1 > 0) and v0 and v1:
                return (0, 0, 1)
            if l == h:
                return (0, int(v0 == 0), 1)
            if v0 == 0:
                raise Split(l + 1)
            if v1 == 0:
                raise Split(h)
            raise Split(_cross(a, b, l, h, 0 if a > 0 else 1))
        if (v0 > 0) == (v1 > 0):
            return (0, int(v0 > 0), 1)
        raise Split(_cross(a, b, l, h, 1))
    if op in ("lshr", "udiv") and type(t.args[1]) is int:
        r = _pw(t.args[0], var, l, h, memo)
        if r is None:
            return None
        d = 1 << t.args[1] if op == "lshr" else t.args[1]
        a, b, _ = r
        v0, v1 = a * l + b, a * h + b
        if v0 // d == v1 // d:
            return (0, v0 // d, w)
        if a % d == 0:
            return (a // d, b // d, w)
        raise Split(_cross(a, b, l, h, (min(v0 // d, v1 // d) + 1) * d))
    if op == "urem" and type(t.args[1]) is int:
        r = _pw(t.args[0], var, l, h, memo)
        if r is None:
            return None
        d = t.args[1]
        a, b, _ = r
        v0, v1 = a * l + b, a * h + b
        if v0 // d == v1 // d:
            return (a, b - (v0 // d) * d, w)
        raise Split(_cross(a, b, l, h, (min(v0 // d, v1 // d) + 1) * d))
    if op == "ashr" and type(t.args[1]) is int:
        r = _pws(t.args[0], w, var, l, h, memo)
        if r is None:
            return None
        d = 1 << t.args[1]
        a, b = r
        v0, v1 = a * l + b, a * h + b
        if v0 // d == v1 // d:
            return (0, (v0 // d) & ((1 << w) - 1), w)
        raise Split(_cross(a, b, l, h, (min(v0 // d, v1 // d) + 1) * d))
    if op == "abs":
        r = _pws(t.args[0], w, var, l, h, memo)
        if r is None:
            return None
        a, b = r
        v0, v1 = a * l + b, a * h + b
        if v0 >= 0 and v1 >= 0:
            return (a, b, w)
        if v0 <= 0 and v1 <= 0:
            return (-a, -b, w)
        raise Split(_cross(a, b, l, h, 0))
    if op in ("sdiv", "srem") and type(t.args[1]) is int:
        r = _pws(t.args[0], w, var, l, h, memo)
        if r is None:
            return None
        d = sgn(t.args[1], w)
        a, b = r
        v0, v1 = a * l + b, a * h + b
        if d <= 0:
            return None
        if (v0 < 0) != (v1 < 0):
            raise Split(_cross(a, b, l, h, 0))
        s = -1 if v0 < 0 else 1
        q0, q1 = abs(v0) // d, abs(v1) // d
        if q0 == q1:
            if op == "sdiv":
                return (0, (s * q0) & ((1 << w) - 1), w)
            return _norm(a, b - s * q0 * d, l, h, w)
        q = min(q0, q1) + 1
        raise Split(_cross(a, b, l, h, q * d if s > 0 else -(q * d) + 1))
    if op == "mul":
        r = [_pw(z, var, l, h, memo) for z in t.args]
        if None in r:
            return None
        if r[0][0] and r[1][0]:
            return None
        if r[0][0]:
            r = [r[1], r[0]]
        k = r[0][1]
        return _norm(k * r[1][0], k * r[1][1], l, h, w)
    if op == "and" and l == h:
        r = [_pw(z, var, l, h, memo) for z in t.args]
        if None in r:
            return None
        return (0, (r[0][0] * l + r[0][1]) & (r[1][0] * l + r[1][1]), w)
    if op in ("and", "or", "xor"):
        r = [_pw(z, var, l, h, memo) for z in t.args]
        if None in r:
            return None
        m = (1 << w) - 1
        for x, y in ((r[0], r[1]), (r[1], r[0])):
            if x[0] == 0:
                k = x[1]
                if op == "and" and k == 0:
                    return (0, 0, w)
                if op == "and" and k == m or op != "and" and k == 0:
                    return (y[0], y[1], w)
        if r[0][0] == 0 and r[1][0] == 0:
            p, q = r[0][1], r[1][1]
            return (0, p & q if op == "and" else p | q if op == "or" else p ^ q, w)
        if l == h:
            p, q = r[0][0] * l + r[0][1], r[1][0] * l + r[1][1]
            return (0, p & q if op == "and" else p | q if op == "or" else p ^ q, w)
        if h - l < 4096:
            raise Split((l + h + 1) // 2)
        return None
    return None


# ------------------------------------------------------------ arithmetic mod Q
Q = 12289


def mq(t):
    """polynomial over Z_Q congruent to the unsigned value of t:
    dict {sorted tuple of (base, exponent)}: coefficient}; bases are T nodes or
    opaque hashables"""
    if type(t) is int:
        v = t % Q
        return {(): v} if v else {}
    if t.mq is not None:
        return t.mq
    r = _mq(t)
    t.mq = r
    return r


def _self(t):
    return {((t, 1),): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % Q
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    k %= Q
    if k == 0:
        return {}
    return {m: c * k % Q for m, c in a.items()}


def _okey(z):
    x = z[0]
    return (0, x.id) if isinstance(x, T) else (1, repr(x))


def mmul(m1, m2):
    d = dict(m1)
    for b, e in m2:
        n = d.get(b, 0) + e
        if n:
            d[b] = n
        else:
            d.pop(b, None)
    return tuple(sorted(d.items(), key=_okey))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = (r.get(m, 0) + c1 * c2) % Q
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _mq(t):
    op = t.op
    w = t.w
    if t.ex is not None:
        return mq(t.ex)
    if op == "fq":
        return dict(t.args[0])
    if op == "zext":
        return mq(t.args[0])
    if op == "trunc":
        a = t.args[0]
        if a.uhi < 1 << w:
            return mq(a)
        return _self(t)
    if op == "urem" and t.args[1] == Q:
        return mq(t.args[0])
    if op == "ite":
        a, b = mq(t.args[1]), mq(t.args[2])
        if a == b:
            return a
        # x<0 ? x+Q : x  style lifts: compare through the wrapped sign
        sa, sb = mqs(t.args[1], w), mqs(t.args[2], w)
        if sa is not None and sa == sb and t.slo >= 0:
            return sa
        # the arms agree wherever the condition selects the other one
        for p, q, val in ((a, b, True), (b, a, False)):
            f = facts_of(t.args[0], val)
            if f and pinned(p, f) == pinned(q, f):
                return q
        return _self(t)
    if op == "mul":
        a, b = t.args
        if a.uhi * b.uhi < 1 << w:
            return pmul(mq(a), mq(b))
        return _self(t)
    if op == "lin":
        c, bs = t.args
        # choose the representation that is exact: all-unsigned or all-signed
        for signed in (False, True):
            lo, hi = lin_math2(c, bs, w, signed)
            if signed and not (t.slo >= 0):
                continue
            f = lo >> w
            # exact if the math value stays in [0,2^w) up to a constant multiple;
            # t's own (refined) range may also pin it down
            ok = hi >> w == f
            if not ok and t.uhi - t.ulo < (1 << w) and lo > -(1 << w) and signed is False:
                # value = math + m*2^w with m in {0,1}; m=0 whenever math>=0 is forced
                ok = False
            if ok:
                r = {}
                k0 = (sgn(c, w) - (f << w)) % Q
                if k0:
                    r[()] = k0
                good = True
                for b, k in bs:
                    p = mqs(b, w) if signed else mq(b)
                    if p is None:
                        good = False
                        break
                    r = padd(r, p, sgn(k, w))
                if good:
                    return r
        q = lin_special(t)
        if q is not None:
            return q
        return _self(t)
    return _self(t)


def pinned(p, f):
    """polynomial p with the atoms the facts determine replaced by their value"""
    r = {}
    for m, c in p.items():
        t = []
        for b, e in m:
            if isinstance(b, T) and e > 0:
                u = rng_under(b, b.w, f)[0]
                if u[0] == u[1]:
                    c = c * pow(u[0], e, Q) % Q
                    continue
            t.append((b, e))
        t = tuple(t)
        v = (r.get(t, 0) + c) % Q
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


def lin_math2(c, bs, w, signed):
    lo = hi = sgn(c, w)
    for b, k in bs:
        k = sgn(k, w)
        r = (b.slo, b.shi) if signed else (b.ulo, b.uhi)
        lo += k * (r[0] if k > 0 else r[1])
        hi += k * (r[1] if k > 0 else r[0])
    return lo, hi


def lin_special(t):
    """forms whose interval alone does not show that they do not wrap:
    x - Q*[x >= Q]   and   x - floor(..x..)*Q"""
    c, bs = t.args
    w = t.w
    # every base other than those with coefficient = 0 mod Q
    r = {}
    if sgn(c, w) % Q:
        r[()] = sgn(c, w) % Q
    lo, hi = lin_math2(c, bs, w, False)
    # refine by splitting on boolean bases
    for b, k in bs:
        if b.op == "zext" and type(b.args[0]) is T and b.args[0].w == 1:
            cond = b.args[0]
            ok = True
            for val in (0, 1):
                fa = facts_of(cond, bool(val))
                l2, h2 = lin_sub_math(c, tuple(z for z in bs if z[0] is not b), w, fa)
                if val:
                    l2 += sgn(k, w)
                    h2 += sgn(k, w)
                if l2 < 0 or h2 >= 1 << w:
                    ok = False
            if ok:
                for bb, kk in bs:
                    r = padd(r, mq(bb), sgn(kk, w))
                return r
            # the same over the signed readings
            ok = True
            rest = tuple(z for z in bs if z[0] is not b)
            for val in (0, 1):
                l2, h2 = lin_math(c, rest, w, True, facts_of(cond, bool(val)))
                if val:
                    l2 += sgn(k, w)
                    h2 += sgn(k, w)
                if l2 < 0 or h2 >= 1 << w:
                    ok = False
            if ok:
                ps = [(mqs(bb, w), kk) for bb, kk in rest]
                if all(p is not None for p, _ in ps):
                    for p, kk in ps:
                        r = padd(r, p, sgn(kk, w))
                    return padd(r, mq(b), sgn(k, w))
    # x - q(x)*Q with the Barrett argument: exact when the proven range is
    # narrower than what one wrap could reach
    if t.uhi < 1 << (w - 1) and lo > -(1 << (w - 1)) and hi < (1 << w) and t.ulo >= 0 and getattr(t, "op", "") == "lin":
        pos = [(b, sgn(k, w)) for b, k in bs if sgn(k, w) > 0]
        ng = [(b, sgn(k, w)) for b, k in bs if sgn(k, w) < 0]
        if len(pos) == 1 and len(ng) == 1 and pos[0][1] == 1 and c == 0:
            a = pos[0][0]
            bterm = mul(ng[0][0], -ng[0][1], w)
            if barrett(a, bterm, w) is not None:
                return padd(mq(a), mq(ng[0][0]), ng[0][1])
    return None


def mqs(t, w):
    """like mq for the signed view"""
    if type(t) is int:
        v = sgn(t, w) % Q
        return {(): v} if v else {}
    if t.slo >= 0:
        return mq(t)
    if t.op == "sext":
        return mqs(t.args[0], t.args[0].w)
    if t.op == "atom" or t.op == "bits":
        return {((("s", t.id), 1),): 1}
    if t.op == "lin":
        c, bs = t.args
        lo, hi = lin_math2(c, bs, w, True)
        H = 1 << (w - 1)
        if lo >= -H and hi < H:
            r = {}
            v = sgn(c, w) % Q
            if v:
                r[()] = v
            for b, k in bs:
                p = mqs(b, w)
                if p is None:
                    return None
                r = padd(r, p, sgn(k, w))
            return r
    if t.op == "ite":
        a, b = mqs(t.args[1], w), mqs(t.args[2], w)
        if a is not None and a == b:
            return a
        return None
    if t.op == "trunc" and t.args[0].slo >= -(1 << (t.w - 1)) and t.args[0].shi < 1 << (t.w - 1):
        return mqs(t.args[0], t.args[0].w)
    return None


def fq(poly, w=16):
    """canonical residue with the given polynomial"""
    if not poly:
        return 0
    if len(poly) == 1 and () in poly:
        return poly[()]
    H = 1 << (w - 1)
    return mk("fq", w, (frozenset(poly.items()),), (0, Q - 1, -H, H - 1))


def rebuild(t, sub, memo=None):
    """the node with some of its atoms replaced, normalised again"""
    if type(t) is not T:
        return t
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t in sub:
        return sub[t]
    a, op, w = t.args, t.op, t.w
    go = lambda x: rebuild(x, sub, memo)
    if op in ("atom", "bits", "fromreal"):
        r = t
    elif op == "lin":
        r = a[0]
        for b, k in a[1]:
            x = go(b)
            y = 0
            if type(x) is int:
                y = x * k & ((1 << w) - 1)
            else:
                c, bs = lin_of(x, w)
                d = {}
                for z, kk in bs:
                    d[z] = kk * k
                y = mklin(c * k, d, w)
            r = add(r, y, w)
    elif op == "ite":
        r = itew(go(a[0]), go(a[1]), go(a[2]), w)
    elif op == "band":
        r = 1
        for x in a[0]:
            r = band(r, go(x))
    elif op == "not":
        r = bnot(go(a[0]))
    elif op in ("zext", "sext", "trunc"):
        r = globals()[op](go(a[0]), a[0].w, w)
    else:
        f = globals().get(op + "_" if op in ("and", "or", "xor") else op)
        wx = max(x.w for x in a if type(x) is T)
        v = [go(x) for x in a]
        if op == "bxor":
            r = bxor(*v)
        elif op == "abs":
            r = iabs(v[0], w)
        elif f is None:
            raise ValueError("rebuild " + op)
        else:
            r = f(*v, wx)
    memo[t] = r
    return r
