"""Meaning of the external functions the analysed program calls."""
import dom as D
import real as RL
from dom import T
from interp import Interp, Ptr, PIte, Opq, Obj, UNDEF, Stop, State, Fn
from real import R, LV

SHAKE_SIZE = 224          # sizeof(shake256::shake256<>) in the model header
ABS = {}                  # absorbed sequence -> id
ABSL = []


def abs_id(seq):
    i = ABS.get(seq)
    if i is None:
        i = ABS[seq] = len(ABSL)
        ABSL.append(seq)
    return i


def reset():
    ABS.clear()
    del ABSL[:]


def dead(I, st, ins, args):
    return None


def memcpy(I, st, ins, args):
    dst, src, n = args[0], args[1], args[2]
    copy(I, st, ins, dst, src, n)
    return st, dst


def pick(I, st, p):
    while type(p) is PIte:
        t = I.decide(st, p.c)
        if t is None:
            return p
        p = p.a if t else p.b
    return p


def condlen(n):
    """n = c ? k : 0 -> (c, k)"""
    if type(n) is T:
        if n.op == "ite" and type(n.args[1]) is int and type(n.args[2]) is int and 0 in n.args[1:]:
            if n.args[2] == 0:
                return n.args[0], n.args[1]
            return D.bnot(n.args[0]), n.args[2]
        if n.op == "lin" and n.args[0] == 0 and len(n.args[1]) == 1:
            b, k = n.args[1][0]
            if b.op == "zext" and b.args[0].w == 1:
                return b.args[0], k
        if n.op == "zext" and n.args[0].w == 1:
            return n.args[0], 1
        if n.op == "bits":
            nz = [(i, b) for i, b in enumerate(n.args) if b]
            if len({b for _, b in nz}) == 1 and nz[0][1] > 1:
                return D.mkbits((nz[0][1],)), sum(1 << i for i, _ in nz)
    return None


def copy(I, st, ins, dst, src, n):
    dst, src = pick(I, st, dst), pick(I, st, src)
    if type(n) is not int:
        t = D.rng_under(n, 64, st.facts)[0]
        if t[0] == t[1]:
            n = t[0]
    if type(n) is not int:
        cl = condlen(n)
        if cl is not None and type(dst) is Ptr and type(src) is Ptr and type(dst.off) is int and type(src.off) is int:
            c, k = cl
            s2 = st.fork()
            copy(I, s2, ins, dst, src, k)
            o = dst.obj
            a, b = s2.mem.get(o.id), st.mem.get(o.id)
            from interp import Cells
            m = I.mergecells(c, a or Cells(None), b or Cells(None), st, o if o.gen is not None else None)
            m.own = st.tok
            st.mem[o.id] = m
            return
        if type(dst) is Ptr and type(src) is Ptr:
            # unknown length: contents of dst become unknown
            for p, what in ((src, "read"), (dst, "write")):
                blockcheck(I, st, ins, p, n, what)
            havoc(I, st, dst.obj)
            return
        raise Stop("memcpy of unknown length")
    if n == 0:
        return
    if type(dst) is not Ptr or type(src) is not Ptr:
        I.oblige("bounds", ins, False, lambda: "memcpy through %r, %r" % (dst, src))
        return
    I.checkptr(st, src, n, ins, "read")
    if dst.obj.const:
        I.oblige("constwrite", ins, False, lambda: "memcpy into constant")
        return
    if dst.obj.kind == "cinput":
        I.oblige("inputwrite", ins, False, lambda: "write to input %s" % dst.obj.name)
    if not I.checkptr(st, dst, n, ins, "write"):
        return
    if type(src.off) is not int or type(dst.off) is not int:
        if type(dst.off) is int and type(src.obj.size) is int:
            step = src.obj.elem if type(src.obj.elem) is int else 1
            tz = 1 << min(D.tz(src.off, 64), 3)
            step = min(step, tz) or 1
            for k in range(0, n, step):
                from ir import Ty
                v = I.symread(st, src.obj, D.add(src.off, k, 64), step, Ty("i", 8 * step))
                I.write(st, dst.obj, dst.off + k, step, v)
            return
        havoc(I, st, dst.obj)
        return
    do, so = dst.off, src.off
    c = st.mem.get(src.obj.id)
    items = []
    if c is not None and c.summ is not None:
        s = c.summ
        for k in range(0, n - n % s[0], s[0]):
            items.append((k, s[0], I.summread(s, s[0], None)))
    else:
        d = c.d if c is not None else {}
        k = 0
        el = src.obj.elem
        while k < n:
            e = d.get(so + k)
            if e is not None:
                if k + e[0] <= n:
                    items.append((k, e[0], e[1]))
                    k += e[0]
                else:
                    items.append((k, 1, I.byteread(st, src.obj, so + k)))
                    k += 1
                continue
            # inside a cell that starts before?
            if d and I.overl(d, so + k, 1):
                items.append((k, 1, I.byteread(st, src.obj, so + k)))
                k += 1
                continue
            if src.obj.gen is not None:
                if type(el) is dict:
                    x = el.get(so + k)
                    if x is not None and k + x[0] <= n:
                        items.append((k, x[0], x[1]))
                        k += x[0]
                        continue
                    items.append((k, 1, I.geng(src.obj, so + k, 1, None)))
                    k += 1
                    continue
                sz = el if type(el) is int else 1
                if (so + k) % sz == 0 and k + sz <= n and not (d and I.overl(d, so + k, sz)):
                    items.append((k, sz, I.geng(src.obj, so + k, sz, None)))
                    k += sz
                else:
                    items.append((k, 1, I.geng(src.obj, so + k, 1, None)))
                    k += 1
                continue
            items.append((k, 1, UNDEF))
            k += 1
    last = None
    dd = st.mem.get(dst.obj.id)
    if dd is not None and dd.summ is not None and len(items) * items[0][1] == n and n == dst.obj.size:
        cc = st.cells(dst.obj)
        cc.summ = None
    for k, sz, v in items:
        if v is UNDEF:
            if st.mem.get(dst.obj.id) is not None and (st.mem[dst.obj.id].d.get(do + k) or dst.obj.gen is not None or I.overl(st.mem[dst.obj.id].d, do + k, 1)):
                I.write(st, dst.obj, do + k, sz, v)
            continue
        I.write(st, dst.obj, do + k, sz, v)


def blockcheck(I, st, ins, p, n, what):
    """[p, p+n) inside p.obj for a symbolic n"""
    o = p.obj
    end = D.add(p.off & ((1 << 64) - 1) if type(p.off) is int else p.off, n, 64)
    if type(o.size) is int:
        hi = D.rng_under(end, 64, st.facts)[0][1]
        ok = hi <= o.size
    else:
        ok = end is o.size or I.decide(st, D.ult(o.size, end, 64)) == 0
    I.oblige("bounds", ins, ok, lambda: "%s of %s byte(s) at %s" % (what, D.show(n, 2), p))


def havoc(I, st, o):
    c = st.cells(o)
    c.d.clear()
    c.summ = (1, 0, 255, -128, 127, "i")


def memset(I, st, ins, args):
    dst, v, n = args[0], args[1], args[2]
    dst = pick(I, st, dst)
    if type(n) is not int:
        t = D.rng_under(n, 64, st.facts)[0]
        if t[0] == t[1]:
            n = t[0]
    if type(n) is not int:
        cl = condlen(n)
        if cl is None or type(dst) is not Ptr or type(dst.off) is not int:
            if type(dst) is Ptr:
                blockcheck(I, st, ins, dst, n, "write")
                havoc(I, st, dst.obj)
                return st, dst
            raise Stop("memset of unknown length")
        c, k = cl
        s2 = st.fork()
        memset(I, s2, ins, (dst, v, k))
        from interp import Cells
        o = dst.obj
        m = I.mergecells(c, s2.mem.get(o.id) or Cells(None), st.mem.get(o.id) or Cells(None), st, o if o.gen is not None else None)
        m.own = st.tok
        st.mem[o.id] = m
        return st, dst
    if n == 0:
        return st, dst
    if type(dst) is not Ptr:
        I.oblige("bounds", ins, False, lambda: "memset through %r" % (dst,))
        return st, dst
    if not I.checkptr(st, dst, n, ins, "write") or type(dst.off) is not int:
        havoc(I, st, dst.obj)
        return st, dst
    c = st.cells(dst.obj)
    if dst.off == 0 and n == dst.obj.size:
        c.d.clear()
        c.summ = None
    o, off = dst.obj, dst.off
    k = 0
    el = o.elem if type(o.elem) is int else None
    if v == 0 and type(v) is int:
        # zero cells of the natural size (8 unless the object says otherwise)
        while k < n:
            s = el or 8
            while s > 1 and ((off + k) % s or k + s > n):
                s >>= 1
            I.write(st, o, off + k, s, 0)
            k += s
    else:
        for k in range(n):
            I.write(st, o, off + k, 1, v)
    return st, dst


def zero_split(I):
    pass


def m_abs(I, st, ins, args):
    w = ins.ty.n
    a = args[0]
    if not isinstance(a, (int, T)):
        return st, D.fresh("abs", w)
    lo = D.rng_under(a, w, st.facts)[1][0]
    I.oblige("overflow", ins, lo > -(1 << (w - 1)), lambda: "abs of the minimum %d-bit value" % w)
    return st, D.iabs(a, w)


def m_overflow(kind, signed):
    """{result, did it overflow}"""
    def h(I, st, ins, args):
        w = ins.ty.e[0].n
        a, b = args
        if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
            return st, (D.fresh("ovf", w), D.fresh("ovf", 1))
        W = 2 * w if kind == "mul" else w + 2
        ext = D.sext if signed else D.zext
        r = {"add": D.add, "sub": D.sub, "mul": D.mul}[kind](a, b, w)
        if kind == "add" and not signed:
            return st, (r, D.ult(r, a, w))
        if kind == "sub" and not signed:
            return st, (r, D.ult(a, b, w))
        if kind == "mul" and type(b) is int and not signed:
            return st, (r, D.ult(((1 << w) - 1) // b, a, w) if b else 0)
        if kind == "mul" and type(a) is int and not signed:
            return st, (r, D.ult(((1 << w) - 1) // a, b, w) if a else 0)
        x = {"add": D.add, "sub": D.sub, "mul": D.mul}[kind](ext(a, w, W), ext(b, w, W), W)
        return st, (r, D.bnot(D.eq(x, ext(r, w, W), W)))
    return h


def m_ctlz(I, st, ins, args):
    return st, D.ctlz(args[0], ins.ty.n) if isinstance(args[0], (int, T)) else D.fresh("ctlz", ins.ty.n, 0, ins.ty.n)


def m_cttz(I, st, ins, args):
    return st, D.cttz(args[0], ins.ty.n) if isinstance(args[0], (int, T)) else D.fresh("cttz", ins.ty.n, 0, ins.ty.n)


def rfn(kind):
    def h(I, st, ins, args):
        a = args[0]
        if type(a) not in (float, R):
            return st, RL.of_atom(RL.mkatom("any", I.bump()))
        if type(a) is R and kind in ("floor", "round"):
            x = RL.single(a)
            if x is not None and x.kind in ("floor", "round", "int"):
                return st, a
        return st, RL.fn(kind, a)
    return h


def m_fmuladd(I, st, ins, args):
    return st, I.fbin("fadd", I.fbin("fmul", args[0], args[1], ins), args[2], ins)


def m_muldc3(I, st, ins, args):
    a, b, c, d = args
    f = I.fbin
    re = f("fsub", f("fmul", a, c), f("fmul", b, d))
    im = f("fadd", f("fmul", a, d), f("fmul", b, c))
    return st, (re, im)


def m_divdc3(I, st, ins, args):
    a, b, c, d = args
    f = I.fbin
    if type(d) is float and d == 0.0:
        return st, (f("fdiv", a, c), f("fdiv", b, c))
    n = f("fadd", f("fmul", c, c), f("fmul", d, d))
    re = f("fdiv", f("fadd", f("fmul", a, c), f("fmul", b, d)), n)
    im = f("fdiv", f("fsub", f("fmul", b, c), f("fmul", a, d)), n)
    return st, (re, im)


def m_isconst(I, st, ins, args):
    return st, 0


def m_new(I, st, ins, args):
    o = Obj("heap@%s" % I.where(ins), args[0], "heap")
    return st, Ptr(o, 0)


def m_delete(I, st, ins, args):
    return st, None


# ------------------------------------------------------------- SHAKE-256
def xof_get(I, st, p):
    p = pick(I, st, p)
    if type(p) is not Ptr or type(p.off) is not int:
        raise Stop("XOF object at an unknown place")
    c = st.mem.get(p.obj.id)
    e = c.d.get(p.off) if c is not None else None
    if e is not None and type(e[1]) is Opq:
        return p, e[1]
    if p.obj.gen is not None:
        v = p.obj.gen(p.off, 8)
        if type(v) is Opq:
            return p, v
    return p, None


def xof_put(I, st, p, v):
    I.write(st, p.obj, p.off, SHAKE_SIZE, v)


def chunk(I, st, ins, p, n):
    """hashable description of the bytes [p, p+n)"""
    p = pick(I, st, p)
    if type(n) is T:
        r = D.rng_under(n, 64, st.facts)[0]
        if r[0] == r[1]:
            n = r[0]
    if type(n) is int:
        if n == 0:
            return ()
        if type(p) is not Ptr:
            I.oblige("bounds", ins, False, lambda: "absorb through %r" % (p,))
            return (("bad", I.bump()),)
        I.checkptr(st, p, n, ins, "read")
        if type(p.off) is int:
            return tuple(("b", I.byteread(st, p.obj, p.off + k)) for k in range(n))
        return (("region?", p.obj.id, p.off, n),)
    if type(p) is not Ptr:
        I.oblige("bounds", ins, False, lambda: "absorb through %r" % (p,))
        return (("bad", I.bump()),)
    blockcheck(I, st, ins, p, n, "read")
    return (("region", p.obj.name, p.off, n),)


def xof_event(I, st, kind, *a):
    I.events.append((kind, st.pc) + a)


def xof_hash(I, st, ins, args):
    p, cur = xof_get(I, st, args[0])
    ch = chunk(I, st, ins, args[1], args[2])
    i = abs_id(("hash",) + ch)
    xof_put(I, st, p, Opq("xof", (i, (None, 0))))
    xof_event(I, st, "hash", i, I.where(ins), I.stack())
    return st, None


def xof_absorb(I, st, ins, args):
    p, cur = xof_get(I, st, args[0])
    ch = chunk(I, st, ins, args[1], args[2])
    if cur is None:
        seq = ("inc",) + ch
    elif cur.kind == "xof" and cur.v[1] == "absorbing":
        seq = ABSL[cur.v[0]] + ch
    else:
        seq = ("misuse", I.bump())
    xof_put(I, st, p, Opq("xof", (abs_id(seq), "absorbing")))
    return st, None


def xof_finalize(I, st, ins, args):
    p, cur = xof_get(I, st, args[0])
    if cur is None:
        i = abs_id(("inc",))
    elif cur.kind == "xof" and cur.v[1] == "absorbing":
        i = cur.v[0]
    else:
        i = abs_id(("misuse", I.bump()))
    xof_put(I, st, p, Opq("xof", (i, (None, 0))))
    return st, None


def xof_bytes(I, v, n):
    """n output bytes of XOF value v, and the value afterwards"""
    if type(v) is Opq and v.kind == "ite":
        c, a, b = v.v
        xa, na = xof_bytes(I, a, n)
        xb, nb = xof_bytes(I, b, n)
        return [D.itew(c, x, y, 8) for x, y in zip(xa, xb)], Opq("ite", (c, na, nb)) if na != nb else na
    if type(v) is Opq and v.kind == "xof" and type(v.v[1]) is tuple:
        i, (base, off) = v.v
        out = [D.inbits(("xof", i, base, off + k), 8, 8) for k in range(n)]
        return out, Opq("xof", (i, (base, off + n)))
    k = I.bump()
    out = [D.inbits(("xof?", k, j), 8, 8) for j in range(n)]
    return out, Opq("unknown", ("unknown", k))


def xof_read(I, st, ins, args):
    p, cur = xof_get(I, st, args[0])
    n = args[2]
    if type(n) is not int:
        raise Stop("XOF read of unknown length")
    out, nv = xof_bytes(I, cur, n)
    xof_event(I, st, "xofread", cur, n, I.where(ins), I.stack())
    dst = pick(I, st, args[1])
    if type(dst) is not Ptr:
        I.oblige("bounds", ins, False, lambda: "read into %r" % (dst,))
    elif I.checkptr(st, dst, n, ins, "write"):
        if dst.obj.kind == "cinput":
            I.oblige("inputwrite", ins, False, lambda: "write to input %s" % dst.obj.name)
        if type(dst.off) is int:
            for k in range(n):
                I.write(st, dst.obj, dst.off + k, 1, out[k])
        else:
            havoc(I, st, dst.obj)
    xof_put(I, st, p, nv)
    return st, None


# --------------------------------------------------------- entropy source
def rd_init(I, st, ins, args):
    I.events.append(("rd_init", st.pc, I.where(ins), I.stack()))
    return st, None


def rd_get(I, st, ins, args):
    k = I.bump()
    v = D.inbits(("entropy", k), 32, 32)
    I.events.append(("entropy", st.pc, k, I.where(ins), I.stack()))
    return st, v


def m_strlen(I, st, ins, args):
    p = pick(I, st, args[0])
    if type(p) is not Ptr or type(p.off) is not int:
        raise Stop("strlen of an unknown string")
    n = 0
    while True:
        b = I.byteread(st, p.obj, p.off + n)
        if type(b) is not int:
            raise Stop("strlen of an unknown string")
        if b == 0:
            return st, n
        n += 1


def nop(I, st, ins, args):
    return st, args[0] if args and type(args[0]) is Ptr else None


def m_fmax(big):
    def go(I, st, ins, args):
        a, b = args[:2]
        if not all(type(x) in (float, R) for x in (a, b)):
            return st, RL.of_atom(RL.mkatom("any", I.bump()))
        c = I.fcmp("olt", a, b)
        if I.oncmp is not None and type(c) is T:
            c = I.oncmp(ins, c)
        if type(c) is int:
            return st, (b if c else a) if big else (a if c else b)
        return st, I.rite(c, b, a) if big else I.rite(c, a, b)
    return go


def m_str(I, st, ins, args):
    return st, None


def install(I):
    a = I.add
    a(r"^std::__throw_", dead)
    a(r"^llvm\.memcpy", memcpy)
    a(r"^llvm\.memmove", memcpy)
    a(r"^llvm\.memset", memset)
    a(r"^llvm\.abs\.", m_abs)
    a(r"^llvm\.ctlz", m_ctlz)
    for k in ("add", "sub", "mul"):
        for c, sg in (("u", False), ("s", True)):
            a(r"^llvm\.%s%s\.with\.overflow" % (c, k), m_overflow(k, sg))
    a(r"^llvm\.cttz", m_cttz)
    a(r"^llvm\.floor", rfn("floor"))
    a(r"^floor$", rfn("floor"))
    a(r"^llvm\.round\.", rfn("round"))
    a(r"^round$", rfn("round"))
    a(r"^sqrt$|^llvm\.sqrt", rfn("sqrt"))
    a(r"^(llvm\.)?(rint|nearbyint|roundeven)(\.f64)?$", rfn("round"))
    a(r"^(llvm\.)?trunc(\.f64)?$", rfn("trunc"))
    a(r"^(llvm\.)?ceil(\.f64)?$", rfn("ceil"))
    a(r"^(llvm\.)?fabs(\.f64)?$", rfn("fabs"))
    a(r"^(llvm\.)?exp(\.f64)?$", rfn("exp"))
    a(r"^(llvm\.)?cos(\.f64)?$", rfn("cos"))
    a(r"^(llvm\.)?sin(\.f64)?$", rfn("sin"))
    a(r"^(llvm\.)?fmuladd|^llvm\.fma\.|^fma$", m_fmuladd)
    a(r"^llvm\.maxnum\.f64|^fmax$", m_fmax(True))
    a(r"^llvm\.minnum\.f64|^fmin$", m_fmax(False))
    a(r"^__muldc3$", m_muldc3)
    a(r"^__divdc3$", m_divdc3)
    a(r"^llvm\.is\.constant", m_isconst)
    a(r"^llvm\.experimental|^llvm\.lifetime", nop)
    a(r"^strlen$", m_strlen)
    a(r"^operator new\[?\]?\(", m_new)
    a(r"^operator delete", m_delete)
    a(r"^shake256::shake256<\w+>::hash\(", xof_hash)
    a(r"^shake256::shake256<\w+>::absorb\(", xof_absorb)
    a(r"^shake256::shake256<\w+>::finalize\(", xof_finalize)
    a(r"^shake256::shake256<\w+>::read\(", xof_read)
    a(r"^std::random_device::_M_init", rd_init)
    a(r"^std::random_device::_M_fini", nop)
    a(r"^std::random_device::_M_getval", rd_get)
    return I
