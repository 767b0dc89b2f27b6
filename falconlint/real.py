"""Abstract value domain: doubles as real-valued rational functions.

A double is a Python float (known), an R (quotient of multivariate polynomials
over opaque real atoms; rounding is not modelled) or an LV (affine form over a
fixed input basis, for the FFT linear maps)."""
import math

TOL = 1e-9


class Atom:
    __slots__ = ("id", "kind", "args", "conjof")

    def __repr__(self):
        return aname(self)


def aname(a):
    if a.kind == "in":
        return str(a.args[0])
    return "%s(%s)" % (a.kind, ",".join(rshow(x) if isinstance(x, R) else repr(x) for x in a.args))


ATOMS = []
AKEY = {}
FN = {}
DENS = []
DKEY = {}


def reset():
    ATOMS.clear()
    AKEY.clear()
    FN.clear()
    DENS.clear()
    DKEY.clear()


def mkatom(kind, *args):
    k = (kind,) + args
    a = AKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args = kind, args
        ATOMS.append(a)
        AKEY[k] = a
    return a


class R:
    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        self.num, self.den = num, den

    def __repr__(self):
        return rshow(self)


def rshow(r, n=6):
    if not isinstance(r, R):
        return repr(r)
    ms = []
    for m, c in list(r.num.items())[:n]:
        s = "*".join(aname(ATOMS[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
        ms.append(("%g*%s" % (c, s) if c != 1 else s) if s else "%g" % c)
    if len(r.num) > n:
        ms.append("..%d terms" % len(r.num))
    s = "+".join(ms) or "0"
    if r.den:
        s = "(%s)/(%s)" % (s, "*".join("[%s]^%d" % (rshow(R(DENS[d])), e) for d, e in r.den))
    return s


def var(name):
    return R({((mkatom("in", name).id, 1),): 1.0})


def of_atom(a):
    return R({((a.id, 1),): 1.0})


def const(v):
    return R({(): float(v)} if v else {})


def isconst(r):
    return not r.den and (not r.num or (len(r.num) == 1 and () in r.num))


def norm(r):
    """R -> float when constant"""
    if not r.den:
        if not r.num:
            return 0.0
        if len(r.num) == 1 and () in r.num:
            return r.num[()]
    elif not r.num:
        return 0.0
    return r


def lift(v):
    if type(v) is R:
        return v
    return R({(): float(v)} if v else {})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def padd(p, q, k=1.0):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0.0) + k * c
        if v == 0 or (abs(v) < 1e-13 * (abs(c * k))):
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0.0)
            w = v + c1 * c2
            if w == 0 or abs(w) < 1e-13 * abs(v):
                r.pop(m, None)
            else:
                r[m] = w
    return r


def ppow(p, n):
    r = {(): 1.0}
    for _ in range(n):
        r = pmul(r, p)
    return r


def denmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def add(a, b, k=1.0):
    if type(a) is float and type(b) is float:
        return a + k * b
    a, b = lift(a), lift(b)
    if a.den == b.den:
        return norm(R(padd(a.num, b.num, k), a.den))
    da, db = dict(a.den), dict(b.den)
    den = {}
    fa = fb = None
    na, nb = a.num, b.num
    for x in set(da) | set(db):
        e = max(da.get(x, 0), db.get(x, 0))
        den[x] = e
        if e > da.get(x, 0):
            na = pmul(na, ppow(DENS[x], e - da.get(x, 0)))
        if e > db.get(x, 0):
            nb = pmul(nb, ppow(DENS[x], e - db.get(x, 0)))
    return cancel(R(padd(na, nb, k), tuple(sorted(den.items()))))


def sub(a, b):
    return add(a, b, -1.0)


def neg(a):
    if type(a) is float:
        return -a
    return R({m: -c for m, c in a.num.items()}, a.den)


def mul(a, b):
    if type(a) is float and type(b) is float:
        return a * b
    a, b = lift(a), lift(b)
    r = R(pmul(a.num, b.num), denmul(a.den, b.den) if a.den or b.den else ())
    return cancel(r) if r.den else norm(r)


def inv(a):
    if type(a) is float:
        return 1.0 / a if a else math.inf
    num = {(): 1.0}
    for d, e in a.den:
        num = pmul(num, ppow(DENS[d], e))
    if len(a.num) == 1:
        (m, c), = a.num.items()
        im = tuple((x, -e) for x, e in m)
        return norm(R({mmul(im, k): v / c for k, v in num.items()}))
    # pull out the monomial content, normalise the leading coefficient
    ms = list(a.num)
    content = {}
    for x, e in ms[0]:
        content[x] = e
    for m in ms[1:]:
        d = dict(m)
        for x in list(content):
            content[x] = min(content[x], d.get(x, 0))
        for x, e in m:
            if e < 0 and x not in content:
                content[x] = e
    for m in ms:
        d = dict(m)
        for x in list(content):
            content[x] = min(content[x], d.get(x, 0))
    content = {x: e for x, e in content.items() if e}
    im = tuple(sorted((x, -e) for x, e in content.items()))
    lead = min(ms)
    lc = a.num[lead]
    poly = {mmul(m, im): c / lc for m, c in a.num.items()}
    key = frozenset((m, "%.9g" % c) for m, c in poly.items())
    did = DKEY.get(key)
    if did is None:
        did = DKEY[key] = len(DENS)
        DENS.append(poly)
    num = {mmul(m, im): c / lc for m, c in num.items()}
    return cancel(R(num, ((did, 1),)))


def div(a, b):
    if type(a) is float and type(b) is float:
        return a / b if b else math.inf
    if type(b) is float:
        return mul(a, 1.0 / b) if b else math.inf
    return mul(a, inv(b))


def pdivide(p, q):
    """exact quotient p/q of polynomials (non-negative exponents) or None"""
    def order(m):
        return (sum(e for _, e in m), m)
    lq = max(q, key=order)
    cq = q[lq]
    il = tuple((x, -e) for x, e in lq)
    big = max(abs(c) for c in p.values())
    out = {}
    p = dict(p)
    n = 0
    while p:
        n += 1
        if n > 400:
            return None
        lp = max(p, key=order)
        if abs(p[lp]) < TOL * big:
            p.pop(lp)
            continue
        m = mmul(lp, il)
        if any(e < 0 for _, e in m):
            return None
        c = p[lp] / cq
        out[m] = c
        for mm, cc in q.items():
            k = mmul(mm, m)
            v = p.get(k, 0.0) - c * cc
            if abs(v) < 1e-11 * big:
                p.pop(k, None)
            else:
                p[k] = v
        p.pop(lp, None)
    return out


def cancel(r):
    if not r.num:
        return 0.0
    if not r.den or len(r.num) > 120:
        return norm(r)
    num = r.num
    den = []
    for d, e in r.den:
        while e > 0 and len(num) >= len(DENS[d]):
            # clear negative exponents of the numerator first
            low = {}
            for m in num:
                for x, k in m:
                    if k < low.get(x, 0):
                        low[x] = k
            sh = tuple(sorted((x, -k) for x, k in low.items()))
            q = pdivide({mmul(m, sh): c for m, c in num.items()}, DENS[d])
            if q is None:
                break
            ish = tuple((x, -k) for x, k in sh)
            num = {mmul(m, ish): c for m, c in q.items()}
            e -= 1
        if e:
            den.append((d, e))
    return norm(R(num, tuple(den)))


def pnear(p, q, tol=TOL):
    big = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [0.0])
    for m in set(p) | set(q):
        if abs(p.get(m, 0.0) - q.get(m, 0.0)) > tol * big:
            return False
    return True


def equal(a, b, tol=TOL):
    if type(a) is float and type(b) is float:
        return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300) or a == b
    if not isinstance(a, (R, float)) or not isinstance(b, (R, float)):
        return a is b
    a, b = lift(a), lift(b)
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    for x in set(da) | set(db):
        k = da.get(x, 0) - db.get(x, 0)
        if k > 0:
            nb = pmul(nb, ppow(DENS[x], k))
        elif k < 0:
            na = pmul(na, ppow(DENS[x], -k))
    return pnear(na, nb, tol)


def sig(r):
    return (frozenset(r.num), r.den)


def fn(kind, *rs):
    """opaque function of real values, equal arguments giving the same atom"""
    if all(type(x) is float for x in rs):
        if kind == "sqrt" and rs[0] >= 0:
            return math.sqrt(rs[0])
        if kind in ("cos", "sin", "exp", "fabs", "log"):
            return float(getattr(math, kind)(rs[0]))
        if kind == "floor":
            return float(math.floor(rs[0]))
        if kind == "round":
            return float(math.floor(abs(rs[0]) + 0.5)) * (1.0 if rs[0] >= 0 else -1.0)
    k = (kind,) + tuple(sig(x) if type(x) is R else "f" for x in rs)
    for old, a in FN.setdefault(k, []):
        if all(equal(x, y, 1e-12) for x, y in zip(old, rs)):
            return of_atom(a)
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args = kind, tuple(rs)
    ATOMS.append(a)
    FN[k].append((rs, a))
    return of_atom(a)


def atoms_of(r):
    s = set()
    if type(r) is R:
        for m in r.num:
            s.update(x for x, _ in m)
        for d, _ in r.den:
            for m in DENS[d]:
                s.update(x for x, _ in m)
    return s


def single(r):
    """the atom if r is exactly one atom"""
    if type(r) is R and not r.den and len(r.num) == 1:
        (m, c), = r.num.items()
        if c == 1.0 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


class LV:
    """affine form: numpy coefficient vector (last entry: constant)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
