"""Abstract interpreter over the LLVM IR of /repo's current source.

One abstract state per control location: states meeting at a join are merged
into gated values (never enumerated path by path); loops whose trip count is a
constant are unrolled, every other loop is analysed once for an arbitrary
iteration after an interval fixpoint with widening.  Nothing is executed and no
solver is involved.
"""
import time
import sys

import dom as D
import real as RL
from dom import T
from ir import layout, Ty
from real import R, LV

sys.setrecursionlimit(100000)


I8 = Ty("i", 8)

class Stop(Exception):
    """the analysis cannot give an answer"""


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


OBJS = {}


class Obj:
    __slots__ = ("id", "name", "size", "kind", "gen", "const", "elem", "esz")
    N = [0]

    def __init__(self, name, size, kind, gen=None, elem=None, const=False):
        Obj.N[0] += 1
        self.id = Obj.N[0]
        self.name, self.size, self.kind, self.gen = name, size, kind, gen
        self.elem = elem      # natural element size of generated objects
        self.const = const
        OBJS[self.id] = self

    def __repr__(self):
        return "<%s>" % self.name


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj is self.obj and (o.off is self.off or type(o.off) is int and type(self.off) is int and o.off == self.off)

    def __hash__(self):
        return hash((id(self.obj), self.off if type(self.off) is int else id(self.off)))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off if type(self.off) is int else D.show(self.off, 2))


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Opq:
    """opaque domain value stored in memory (XOF state, big integer, ...);
    subclasses define join(c, a, b)"""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __eq__(self, o):
        return type(o) is Opq and o.kind == self.kind and o.v == self.v

    def __hash__(self):
        return hash((self.kind, self.v))

    def __repr__(self):
        return "%s:%r" % (self.kind, self.v)


class Cells:
    __slots__ = ("d", "own", "summ")

    def __init__(self, own):
        self.d = {}
        self.own = own
        self.summ = None      # (size, ulo, uhi, slo, shi, kind) after a store at an unknown place


class State:
    __slots__ = ("mem", "tok", "pc", "facts", "ev")

    def __init__(self):
        self.mem = {}
        self.tok = object()
        self.pc = frozenset()
        self.facts = D.NOFACTS
        self.ev = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.tok = object()
        s.pc, s.facts, s.ev = self.pc, self.facts, self.ev
        return s

    def cells(self, o):
        c = self.mem.get(o.id)
        if c is None:
            c = self.mem[o.id] = Cells(self.tok)
        elif c.own is not self.tok:
            n = Cells(self.tok)
            n.d = dict(c.d)
            n.summ = c.summ
            c = self.mem[o.id] = n
        return c


class Loop:
    __slots__ = ("head", "blocks", "subs", "parent", "rpo")


class FnInfo:
    """CFG facts of one function: reverse post-order and the loop nest"""

    def __init__(self, f):
        self.f = f
        B = f.blocks
        order, seen = [], set()
        st = [(f.entry, iter(B[f.entry].succ))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(B[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        num = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in B[b].succ:
                preds[s].append(b)
        # dominators
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = None
                for p in preds[b]:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in B[b].succ:
                if num[s] <= num[b]:
                    if not dominates(s, b):
                        raise Stop("irreducible control flow in " + f.dem)
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        self.loops = {}
        ls = sorted(loops.items(), key=lambda z: len(z[1]))
        for h, body in ls:
            L = Loop()
            L.head, L.blocks, L.parent = h, body, None
            L.rpo = [b for b in order if b in body]
            self.loops[h] = L
        self.inner = {}
        for b in order:
            for h, body in ls:
                if b in body:
                    self.inner[b] = h
                    break
        for h, L in self.loops.items():
            best = None
            for h2, body in ls:
                if h2 != h and h in body and (best is None or len(body) < len(loops[best])):
                    best = h2
            L.parent = best
        self.num = num
        self.preds = preds
        self.ham = {}

    def hammock(self, b):
        """does the branch at the end of b merely choose between short pieces of
        straight code (no calls, no loops, no way out) that meet again?"""
        r = self.ham.get(b)
        if r is None:
            r = self.ham[b] = self.hammock_(b)
        return r

    def hammock_(self, b):
        B = self.f.blocks
        h = self.inner.get(b)
        seen = {b}
        pend = sorted(set(B[b].succ), key=lambda x: self.num[x])
        if len(pend) < 2:
            return False
        while len(pend) > 1:
            x = pend.pop(0)
            if self.num[x] <= self.num[b] or self.inner.get(x) != h or len(seen) > 12:
                return False
            if any(p not in seen for p in self.preds[x]):
                return False
            if any(i.op in ("call", "invoke", "ret", "unreachable", "switch") and not str(i.x).startswith("llvm.") for i in B[x].ins):
                return False
            seen.add(x)
            for y in B[x].succ:
                if y not in pend and y not in seen:
                    pend.append(y)
            pend.sort(key=lambda x: self.num[x])
        j = pend[0]
        if self.num[j] <= self.num[b] or self.inner.get(j) != h:
            return False
        # flags and counters collected over a loop follow one path
        hp = {p.res for p in B[h].phis} if h is not None else set()
        back = {v for p in B[h].phis for v in p.x.values()} if h is not None else set()
        for p in B[j].phis:
            if p.ty.k == "i" and p.ty.n == 1 or ("r", p.res) in back or any(v[0] == "r" and v[1] in hp for v in p.x.values()):
                return False
        return True


THRESH = sorted({0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 12288, 12289, 65535})


class Interp:
    def __init__(self, mod, prune=True):
        self.m = mod
        self.fi = {}
        self.gobj = {}
        self.icp = {}          # function symbol -> handler
        self.icpre = []        # (demangled-name predicate, handler)
        self.obl = {}          # obligation key -> [count, failures]
        self.rec = True        # record obligations
        self.depth = 0
        self.maxdepth = 60
        self.steps = 0
        self.maxsteps = 400_000_000
        self.forks = 0
        self.maxcpu = None        # seconds of processor time
        self.canon = None      # normaliser of stored values
        self.K = 0             # undetermined iterations to unroll before generalising
        self.loopK = {}        # (function dem prefix) -> K
        self.visited = {}
        self.generic = 0       # loops analysed for an arbitrary iteration
        self.unrolled = 0
        self.trace = None
        self.calls = {}
        self.ev_on = True
        self.events = []
        self.stackname = []
        self.maxtrip = 200000
        self.opaque_calls = {}
        self.onbranch = None
        self.mergeham = False
        self.pcf = {}
        self.oncmp = None      # gives outcomes to undecided comparisons of reals
        self.loopinfo = []
        self.thrc = {}
        self.exitblocks = {}
        self.defs = {}
        self.d = {
            "load": self.i_load, "store": self.i_store, "getelementptr": self.i_gep, "alloca": self.i_alloca,
            "icmp": self.i_icmp, "fcmp": self.i_fcmp, "select": self.i_select, "extractvalue": self.i_extract,
            "insertvalue": self.i_insert, "fneg": self.i_fneg, "freeze": self.i_freeze,
        }
        for op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            self.d[op] = getattr(self, "i_" + op, None) or self.mkbin(op)
        for op in ("fadd", "fsub", "fmul", "fdiv"):
            self.d[op] = self.mkfbin(op)
        for op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "bitcast"):
            self.d[op] = getattr(self, "i_" + op)

    # -------------------------------------------------------------- misc
    def where(self, ins):
        f, l = self.m.loc(ins.scope) if ins is not None and ins.scope is not None else ("?", 0)
        return "%s:%d" % (f.replace("/repo/", ""), l)

    def stack(self):
        return " < ".join(x.split("(")[0][-60:] for x in reversed(self.stackname[-4:]))

    def oblige(self, kind, ins, ok, detail):
        """record one proof obligation; detail is a callable"""
        if not self.rec:
            return
        k = (kind, ins.uid if ins is not None else 0)
        e = self.obl.get(k)
        if e is None:
            e = self.obl[k] = [0, [], ins, self.stackname[-1] if self.stackname else "?"]
        e[0] += 1
        if not ok and len(e[1]) < 3:
            e[1].append((detail(), self.stack()))

    def failures(self, kinds=None):
        out = []
        for (k, _), (n, bad, ins, fn) in self.obl.items():
            if bad and (kinds is None or k in kinds):
                out.append((k, self.where(ins), fn, bad[0][0], bad[0][1]))
        return out

    def stats(self):
        d = {}
        for (k, _), (n, bad, ins, fn) in self.obl.items():
            x = d.setdefault(k, [0, 0, 0])
            x[0] += 1
            x[1] += n
            x[2] += 1 if bad else 0
        return d

    def info(self, f):
        r = self.fi.get(f.name)
        if r is None:
            r = self.fi[f.name] = FnInfo(f)
            r.rpoidx = {b: i for i, b in enumerate(r.rpo)}
        return r

    # ---------------------------------------------------------- path facts
    def assume(self, st, c, val):
        """restrict st to c == val; returns False if contradictory"""
        l = c if val else D.bnot(c)
        if type(l) is int:
            return bool(l)
        new = l.args[0] if l.op == "band" else (l,)
        add = [x for x in new if x not in st.pc]
        if add:
            st.pc = st.pc | frozenset(add)
            f = st.facts
            for x in add:
                g = D.facts_of(x, True)
                if g:
                    f = f + g
            st.facts = f
            # unit propagation through disjunctions already on the path
        return True

    def setpc(self, st, pc):
        k = self.pcf.get(pc)
        if k is not None:
            st.pc, st.facts = k
            return
        st.pc = pc
        f = D.NOFACTS
        for x in pc:
            g = D.facts_of(x, True)
            if g:
                f = f + g
        st.facts = f

    def decide(self, st, c, deep=True):
        if type(c) is int:
            return c
        pc = st.pc
        if c in pc:
            return 1
        n = D.bnot(c)
        if n in pc:
            return 0
        if c.op == "band":
            if c.args[0] <= pc:
                return 1
            if len(c.args[0]) > 1 and len(pc) < 64:
                for x in pc:
                    if x.op == "not" and x.args[0].op == "band" and x.args[0].args[0] <= c.args[0]:
                        return 0
            if not deep and len(c.args[0]) > 24:
                return 0 if any(D.bnot(x) in pc for x in c.args[0]) else None
            if all(self.decide(st, x) == 1 for x in c.args[0]):
                return 1
            if any(self.decide(st, x) == 0 for x in c.args[0]):
                return 0
            return None
        if c.op == "not" and c.args[0].op == "band":
            r = self.decide(st, c.args[0], deep)
            return None if r is None else 1 - r
        if c.op == "ite":
            k = self.decide(st, c.args[0], deep)
            if k is not None:
                return self.decide(st, c.args[2 - k], deep)
            a, b = self.decide(st, c.args[1]), self.decide(st, c.args[2])
            if a is not None and a == b:
                return a
            return None
        if c.op in ("ult", "slt", "eq") and type(c.args[0]) is T and type(c.args[1]) is T:
            x, y = c.args
            get = lambda op, a, b: D.TAB.get((op, 1, (a, b)))
            if c.op == "eq":
                for op in ("ult", "slt"):
                    if get(op, x, y) in pc or get(op, y, x) in pc:
                        return 0
            else:
                if get(c.op, y, x) in pc or get("eq", x, y) in pc or get("eq", y, x) in pc:
                    return 0
        return D.truth_under(c, st.facts)

    def resolve(self, st, v):
        """take the branch of gated choices the path condition selects"""
        while type(v) is T and v.op == "ite":
            t = self.decide(st, v.args[0], False)
            if t is None:
                break
            v = v.args[1] if t else v.args[2]
        return v

    def rng(self, st, v, w):
        """(ulo,uhi),(slo,shi)"""
        v = self.resolve(st, v)
        return D.rng_under(v, w, st.facts)

    # ----------------------------------------------------------- operands
    def val(self, o, regs, ty=None):
        k = o[0]
        if k == "r":
            v = regs.get(o[1], regs)
            if v is regs:
                raise Stop("use of an undefined register %s" % (o[1],))
            return v
        if k == "c" or k == "f":
            return o[1]
        if k == "g":
            return self.gptr(o[1], o[2])
        if k == "z":
            return self.zero(ty)
        if k == "u":
            return UNDEF
        if k == "agg":
            es = ty.e if ty.k == "st" else [ty.e] * len(o[1])
            return tuple(self.val(x, regs, t) for x, t in zip(o[1], es))
        raise Stop("operand " + k)

    def zero(self, ty):
        if ty.k == "i" or ty.k == "ptr":
            return 0
        if ty.k == "double":
            return 0.0
        if ty.k == "st":
            return tuple(self.zero(t) for t in ty.e)
        if ty.k == "arr":
            return tuple(self.zero(ty.e) for _ in range(ty.n))
        raise Stop("zero of " + ty.k)

    def gptr(self, name, off=0):
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        o = self.gobj.get(name)
        if o is None:
            g = self.m.globals.get(name)
            if g is None:
                raise Stop("unknown global " + name)
            cells = {}
            if g.init is not None:
                self.flat(g.init, g.ty, 0, cells)

            def gen(off, size, cells=cells):
                c = cells.get(off)
                if c is not None and c[0] == size:
                    return c[1]
                if c is not None and type(c[1]) is int and size < c[0]:
                    return c[1] & ((1 << 8 * size) - 1)
                # compose from bytes
                v = 0
                for k in range(size):
                    b = None
                    for o2 in range(off + k, off + k - 17, -1):
                        c = cells.get(o2)
                        if c is not None and o2 + c[0] > off + k and type(c[1]) is int:
                            b = (c[1] >> (8 * (off + k - o2))) & 255
                            break
                    if b is None:
                        return UNDEF
                    v |= b << (8 * k)
                return v
            o = Obj(name, layout(g.ty)[0], "global", gen, None, g.const)
            o.elem = cells
            self.gobj[name] = o
        return Ptr(o, off)

    def flat(self, v, ty, off, out):
        if ty.k == "arr":
            s = layout(ty.e)[0]
            if v[0] == "z":
                for i in range(ty.n):
                    self.flat(v, ty.e, off + i * s, out)
            elif v[0] == "agg":
                for i, x in enumerate(v[1]):
                    self.flat(x, ty.e, off + i * s, out)
        elif ty.k == "st":
            layout(ty)
            for i, t in enumerate(ty.e):
                self.flat(v if v[0] == "z" else v[1][i] if v[0] == "agg" else v, t, off + ty.offs[i], out)
        elif ty.k == "i":
            out[off] = (layout(ty)[0], 0 if v[0] == "z" else v[1] if v[0] == "c" else UNDEF)
        elif ty.k == "double":
            out[off] = (8, 0.0 if v[0] == "z" else v[1])
        elif ty.k == "ptr":
            out[off] = (8, self.gptr(v[1], v[2]) if v[0] == "g" else 0)

    # ------------------------------------------------------------- memory
    def tsize(self, ty):
        return layout(ty)[0]

    def read(self, st, o, off, size, ty, ins=None):
        c = st.mem.get(o.id)
        if c is not None:
            e = c.d.get(off)
            if e is not None and e[0] == size:
                v = e[1]
                return self.conv(v, ty)
            if c.summ is not None:
                return self.summread(c.summ, size, ty)
            if e is not None and type(e[1]) is Opq:
                return e[1]
            lo = off - 16
            hit = e is not None
            if not hit:
                for k in range(off + size - 1, lo, -1):
                    x = c.d.get(k)
                    if x is not None and k + x[0] > off:
                        hit = True
                        break
            if hit:
                return self.conv(self.assemble(st, o, off, size), ty)
        return self.conv(self.default(o, off, size, ty), ty)

    def default(self, o, off, size, ty):
        if o.gen is not None:
            return self.geng(o, off, size, ty)
        return UNDEF

    def geng(self, o, off, size, ty):
        v = o.gen(off, size)
        if v is None:
            # compose from elements / slice an element
            e = o.elem
            if type(e) is int:
                if size < e:
                    base = off - off % e
                    b = o.gen(base, e)
                    if isinstance(b, (int, T)):
                        return D.trunc(D.lshr(b, 8 * (off - base), 8 * e), 8 * e, 8 * size)
                elif size > e:
                    v = 0
                    for k in range(0, size, e):
                        x = o.gen(off + k, e)
                        if not isinstance(x, (int, T)):
                            return UNDEF
                        v = D.or_(v, D.shl(D.zext(x, 8 * e, 8 * size), 8 * k, 8 * size), 8 * size)
                    return v
            return UNDEF
        return v

    def byteof(self, v, size, k):
        if type(v) is int:
            return (v >> (8 * k)) & 255
        if type(v) is T:
            w = 8 * size
            if v.w != w:
                v = D.zext(v, v.w, w)
                if type(v) is int:
                    return (v >> (8 * k)) & 255
            return D.trunc(D.lshr(v, 8 * k, w), w, 8)
        return UNDEF

    def byteread(self, st, o, off):
        c = st.mem.get(o.id)
        if c is not None:
            for k in range(off, off - 17, -1):
                x = c.d.get(k)
                if x is not None:
                    if k + x[0] > off:
                        return self.byteof(x[1], x[0], off - k)
                    break
        return self.default(o, off, 1, None) if o.gen is not None else UNDEF

    def assemble(self, st, o, off, size):
        w = 8 * size
        v = 0
        for k in range(size):
            b = self.byteread(st, o, off + k)
            if b is UNDEF:
                return UNDEF
            v = D.or_(v, D.shl(D.zext(b, 8, w), 8 * k, w), w)
        return v

    def conv(self, v, ty):
        """value of a memory cell as IR type ty"""
        if ty is None or v is UNDEF:
            return v
        if ty.k == "i":
            if type(v) is T and v.w != ty.n:
                return D.trunc(v, v.w, ty.n) if v.w > ty.n else D.zext(v, v.w, ty.n)
            if type(v) is int:
                return v & ((1 << ty.n) - 1)
            if type(v) in (float, R, LV):
                return Opq("bitcast", v)
            return v
        if ty.k == "double":
            if type(v) is Opq and v.kind == "bitcast":
                return v.v
            if type(v) is int:
                import struct
                return struct.unpack("<d", v.to_bytes(8, "little"))[0]
            if type(v) is T:
                return RL.of_atom(RL.mkatom("frombits", v.id))
        return v

    def write(self, st, o, off, size, v):
        c = st.cells(o)
        d = c.d
        e = d.get(off)
        if e is None or e[0] != size:
            # clear what the store overlaps
            for k in range(off + size - 1, off - 17, -1):
                x = d.get(k)
                if x is not None and k + x[0] > off:
                    if k >= off and k + x[0] <= off + size:
                        del d[k]
                    else:
                        keep = [(k + j, self.byteof(x[1], x[0], j)) for j in range(x[0]) if not off <= k + j < off + size]
                        del d[k]
                        for p, b in keep:
                            d[p] = (1, b)
        d[off] = (size, v)

    def summread(self, s, size, ty):
        n, ulo, uhi, slo, shi, kind = s
        if kind == "d" or (ty is not None and ty.k == "double"):
            return RL.of_atom(RL.mkatom("any", D._fresh[0], self.bump()))
        if size == n:
            return D.mk("atom", 8 * size, ("m~%d" % self.bump(), (ulo, uhi, slo, shi)), (ulo, uhi, slo, shi))
        return D.fresh("m", 8 * size)

    def bump(self):
        D._fresh[0] += 1
        return D._fresh[0]

    def smash(self, st, o, size, v, w):
        """store at an unknown offset"""
        c = st.cells(o)
        rs = []
        isd = type(v) in (float, R)
        for k, (n, x) in c.d.items():
            if isinstance(x, (int, T)) and n == size:
                rs.append(D.r4(x, 8 * n) if type(x) is int or x.w == 8 * n else None)
            elif x is UNDEF:
                pass
            else:
                rs.append(None)
        if c.summ is not None:
            rs.append(c.summ[1:5] if c.summ[0] == size and c.summ[5] != "d" else None)
        elif o.gen is not None:
            rs.append(None)
        if isinstance(v, (int, T)):
            u, s = D.rng_under(v, w, st.facts)
            rs.append((u[0], u[1], s[0], s[1]))
        else:
            rs.append(None)
        M = 1 << (8 * size)
        if None in rs:
            r = (0, M - 1, -(M >> 1), (M >> 1) - 1)
        else:
            r = (min(x[0] for x in rs), max(x[1] for x in rs), min(x[2] for x in rs), max(x[3] for x in rs))
        c.d.clear()
        c.summ = (size,) + r + ("d" if isd else "i",)

    # bounds -------------------------------------------------------------
    def checkptr(self, st, p, size, ins, what):
        """concrete or symbolic access p[0..size); returns True if the place is usable"""
        o = p.obj
        osz = o.size
        off = p.off
        if type(off) is int:
            if off >> 63:
                off -= 1 << 64
            if type(osz) is int:
                ok = 0 <= off and off + size <= osz
                self.oblige("bounds", ins, ok, lambda: "%s of %d byte(s) at offset %d of %s (%d bytes)" % (what, size, off, o.name, osz))
                return ok
            ok = 0 <= off and off + size <= D.urng(osz)[0]
            self.oblige("bounds", ins, ok, lambda: "%s of %d byte(s) at offset %d of %s (size not known to cover it)" % (what, size, off, o.name))
            return True
        u, s = self.rng(st, off, 64)
        if type(osz) is int:
            ok = u[0] <= u[1] and (0 <= u[0] and u[1] + size <= osz)
            self.oblige("bounds", ins, ok, lambda: "%s of %d byte(s) at offset in [%d, %d] of %s (%d bytes)" % (
                what, size, max(u[0], s[0]) if s[0] >= 0 else s[0], s[1] if u[1] >> 63 else u[1], o.name, osz))
            return True
        ok = self.decide(st, D.ult(off, osz, 64)) == 1 and size == 1
        self.oblige("bounds", ins, ok, lambda: "%s at offset %s of %s: not shown to be below its size" % (what, D.show(off, 2), o.name))
        return True

    def i_load(self, ins, st, regs):
        p = self.val(ins.a[0], regs)
        regs[ins.res] = self.load(st, p, ins.ty, ins)

    def load(self, st, p, ty, ins):
        if type(p) is PIte:
            t = self.decide(st, p.c)
            if t is not None:
                return self.load(st, p.a if t else p.b, ty, ins)
            a = self.load(st, p.a, ty, ins)
            b = self.load(st, p.b, ty, ins)
            return self.mergeval(p.c, a, b, self.tyw(ty))
        if type(p) is not Ptr:
            if p is UNDEF:
                self.oblige("uninit", ins, False, lambda: "load through an uninitialised pointer")
                return self.freshof(ty)
            if type(p) is Fn:
                raise Stop("load from function")
            self.oblige("bounds", ins, False, lambda: "load through %r" % (p,))
            return self.freshof(ty)
        if ty.k == "st":
            layout(ty)
            return tuple(self.load(st, Ptr(p.obj, self.addoff(p.off, o)), t, ins) for t, o in zip(ty.e, ty.offs))
        if ty.k == "arr":
            s = layout(ty.e)[0]
            return tuple(self.load(st, Ptr(p.obj, self.addoff(p.off, i * s)), ty.e, ins) for i in range(ty.n))
        size = layout(ty)[0]
        if ty.k == "i" and (ty.n + 7) // 8 != size:
            # an integer of three, five, ... bytes, byte by byte
            w, v = 8 * ((ty.n + 7) // 8), 0
            for k in range(w // 8):
                x = self.load(st, Ptr(p.obj, self.addoff(p.off, k)), I8, ins)
                if x is UNDEF or type(x) is Opq:
                    return x
                v = D.or_(v, D.shl(D.zext(x, 8, w), 8 * k, w), w)
            return D.trunc(v, w, ty.n) if w > ty.n else v
        off = p.off
        if not self.checkptr(st, p, size, ins, "read"):
            return self.freshof(ty)
        if type(off) is int:
            v = self.read(st, p.obj, off, size, ty, ins)
            if v is UNDEF and p.obj.kind != "input":
                return UNDEF
            if type(v) is T and v.op == "ite":
                return self.resolve(st, v)
            return v
        return self.symread(st, p.obj, off, size, ty)

    def addoff(self, off, k):
        return off + k if type(off) is int else D.add(off, k & ((1 << 64) - 1), 64)

    def symread(self, st, o, off, size, ty):
        """read at a statically unknown offset: hull of what may be there"""
        c = st.mem.get(o.id)
        if ty.k == "double":
            return RL.of_atom(RL.mkatom("any", self.bump()))
        if ty.k != "i":
            return self.freshof(ty)
        if c is not None and c.summ is not None:
            return self.conv(self.summread(c.summ, size, ty), ty)
        u, _ = self.rng(st, off, 64)
        vals = []
        if type(o.size) is int and o.size <= 1 << 16 and (o.gen is None or type(o.elem) in (int, dict)):
            lo, hi = max(0, u[0]), min(o.size - size, u[1])
            step = size
            t = D.tz(off, 64)
            if (1 << t) % size == 0:
                step = size
                lo = -(-lo // size) * size
            else:
                step = 1
            n = 0
            r = None
            for k in range(lo, hi + 1, step):
                n += 1
                if n > 8192:
                    r = None
                    break
                v = self.read(st, o, k, size, ty)
                if v is UNDEF:
                    continue
                if not isinstance(v, (int, T)):
                    r = None
                    break
                x = D.r4(v, 8 * size)
                r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]), min(r[2], x[2]), max(r[3], x[3]))
            if r is not None:
                v = D.mk("atom", 8 * size, ("s~%d" % self.bump(), r), r)
                return self.conv(v, ty)
        return self.conv(D.fresh("s", 8 * size), ty)

    def freshof(self, ty):
        if ty.k == "i":
            return D.fresh("f", ty.n)
        if ty.k == "double":
            return RL.of_atom(RL.mkatom("any", self.bump()))
        if ty.k == "st":
            return tuple(self.freshof(t) for t in ty.e)
        if ty.k == "arr":
            return tuple(self.freshof(ty.e) for _ in range(ty.n))
        if ty.k == "ptr":
            return UNDEF
        return None

    def tyw(self, ty):
        return ty.n if ty.k == "i" else 0

    def i_store(self, ins, st, regs):
        v = self.val(ins.a[0], regs, ins.ty)
        p = self.val(ins.a[1], regs)
        self.store(st, p, v, ins.ty, ins)

    def store(self, st, p, v, ty, ins):
        if self.canon is not None:
            v = self.canon(v)
        if type(p) is PIte:
            t = self.decide(st, p.c)
            if t is not None:
                return self.store(st, p.a if t else p.b, v, ty, ins)
            for q, c in ((p.a, p.c), (p.b, D.bnot(p.c))):
                old = self.load(st, q, ty, ins)
                self.store(st, q, self.mergeval(c, v, old, self.tyw(ty)), ty, ins)
            return
        if type(p) is not Ptr:
            self.oblige("bounds", ins, False, lambda: "store through %r" % (p,))
            return
        if type(v) is tuple:
            if ty.k == "st":
                layout(ty)
                for x, t, o in zip(v, ty.e, ty.offs):
                    self.store(st, Ptr(p.obj, self.addoff(p.off, o)), x, t, ins)
            else:
                s = layout(ty.e)[0]
                for i, x in enumerate(v):
                    self.store(st, Ptr(p.obj, self.addoff(p.off, i * s)), x, ty.e, ins)
            return
        size = layout(ty)[0]
        if ty.k == "i" and (ty.n + 7) // 8 != size:
            w = 8 * ((ty.n + 7) // 8)
            if isinstance(v, (int, T)):
                v = D.zext(v, ty.n, w) if w > ty.n else v
                for k in range(w // 8):
                    self.store(st, Ptr(p.obj, self.addoff(p.off, k)), D.trunc(D.lshr(v, 8 * k, w), w, 8), I8, ins)
                return
            if v is UNDEF:
                for k in range(w // 8):
                    self.store(st, Ptr(p.obj, self.addoff(p.off, k)), UNDEF, I8, ins)
                return
            raise Stop("store of a %d-bit value" % ty.n)
        if p.obj.const:
            self.oblige("constwrite", ins, False, lambda: "write to constant %s" % p.obj.name)
            return
        if p.obj.kind == "global":
            self.oblige("globalwrite", ins, False, lambda: "write to global %s" % p.obj.name)
        if p.obj.kind == "cinput":
            self.oblige("inputwrite", ins, False, lambda: "write to input %s" % p.obj.name)
        if not self.checkptr(st, p, size, ins, "write"):
            return
        if ty.k == "i" and type(v) is T and v.w != 8 * size:
            v = D.zext(v, v.w, 8 * size)
        if type(p.off) is int:
            self.write(st, p.obj, p.off, size, v)
        else:
            self.smash(st, p.obj, size, v, 8 * size)

    def i_alloca(self, ins, st, regs):
        n = ins.x if type(ins.x) is int else self.val(ins.x, regs)
        if type(n) is not int:
            u, _ = self.rng(st, n, n.w)
            sz = D.mul(D.trunc(n, n.w, 64) if n.w > 64 else D.zext(n, n.w, 64), layout(ins.ty)[0], 64)
        else:
            sz = layout(ins.ty)[0] * n
        o = Obj("%s in %s" % (ins.res, self.stackname[-1].split("(")[0][-40:] if self.stackname else "?"), sz, "alloca")
        st.mem.pop(o.id, None)
        regs[ins.res] = Ptr(o, 0)

    def i_gep(self, ins, st, regs):
        p = self.val(ins.a[0], regs)
        const, terms = ins.x
        if not const and not terms:
            regs[ins.res] = p
            return
        off = const
        sym = None
        for o, sc, w in terms:
            v = self.val(o, regs)
            if type(v) is int:
                if v >> (w - 1):
                    v -= 1 << w
                off += v * sc
            elif type(v) is T:
                x = D.mul(D.sext(v, w, 64), sc & ((1 << 64) - 1), 64)
                sym = x if sym is None else D.add(sym, x, 64)
            else:
                self.oblige("uninit", ins, False, lambda: "address computed from an uninitialised value")
                sym = D.fresh("u", 64)
        regs[ins.res] = self.padd(p, off, sym)

    def padd(self, p, off, sym):
        if type(p) is PIte:
            return PIte(p.c, self.padd(p.a, off, sym), self.padd(p.b, off, sym))
        if type(p) is not Ptr:
            if type(p) is int and sym is None:
                return (p + off) & ((1 << 64) - 1)
            return p
        if sym is None and type(p.off) is int:
            return Ptr(p.obj, p.off + off)
        a = p.off & ((1 << 64) - 1) if type(p.off) is int else p.off
        if sym is not None:
            a = D.add(a, sym, 64)
        a = D.add(a, off & ((1 << 64) - 1), 64)
        return Ptr(p.obj, a)

    # ------------------------------------------------------------ integers
    def mkbin(self, op):
        f = getattr(D, op + "_" if op in ("and", "or", "xor") else op)

        def h(ins, st, regs):
            ty = ins.ty
            a = self.val(ins.a[0], regs, ty)
            b = self.val(ins.a[1], regs, ty)
            w = ty.n
            if not (type(a) is int or type(a) is T) or not (type(b) is int or type(b) is T):
                if a is UNDEF and type(b) is int and op == "and" and ins.a[0][0] != "r":
                    # masked insertion into an undefined aggregate: any bits may be there
                    u = D.inbits("undef~%d" % self.bump(), w, w)
                    regs[ins.res] = D.and_(u, b, w)
                    return
                regs[ins.res] = self.oddbin(ins, op, a, b, w)
                return
            if op in ("udiv", "sdiv", "urem", "srem"):
                if type(b) is int:
                    ok = b != 0
                else:
                    u, _ = self.rng(st, b, w)
                    ok = u[0] > 0 or self.decide(st, D.eq(b, 0, w)) == 0
                self.oblige("divzero", ins, ok, lambda: "divisor may be 0")
                if type(b) is int and b == 0:
                    regs[ins.res] = D.fresh("div0", w)
                    return
                if op[0] == "s":
                    if type(b) is int:
                        ok = b != (1 << w) - 1 or D.srng(a, w)[0] > -(1 << (w - 1))
                    else:
                        ok = self.rng(st, b, w)[1][0] > -1 or self.rng(st, a, w)[1][0] > -(1 << (w - 1))
                    self.oblige("overflow", ins, ok, lambda: "division overflow")
                regs[ins.res] = f(a, b, w)
                return
            if op in ("shl", "lshr", "ashr"):
                if type(b) is int:
                    ok = b < w
                else:
                    ok = self.rng(st, b, w)[0][1] < w
                self.oblige("shift", ins, ok, lambda: "shift amount in %s for width %d" % (self.rng(st, b, w)[0] if type(b) is T else b, w))
                if op == "shl" and ins.flags and "nsw" in ins.flags:
                    self.ovf(ins, st, op, a, b, w)
                regs[ins.res] = f(a, b, w)
                return
            if ins.flags and "nsw" in ins.flags and op in ("add", "sub", "mul"):
                self.ovf(ins, st, op, a, b, w)
            regs[ins.res] = f(a, b, w)
        return h

    def ovf(self, ins, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            s0 = s1 = D.sgn(a, w)
            t0 = t1 = D.sgn(b, w)
        else:
            (_, (s0, s1)), (_, (t0, t1)) = self.rng(st, a, w), self.rng(st, b, w)
        H = 1 << (w - 1)
        if op == "add":
            lo, hi = s0 + t0, s1 + t1
        elif op == "sub":
            lo, hi = s0 - t1, s1 - t0
        elif op == "mul":
            ps = (s0 * t0, s0 * t1, s1 * t0, s1 * t1)
            lo, hi = min(ps), max(ps)
        else:
            lo, hi = (s0, s1) if s0 < 0 else (0, s1)
            if t1 > 64:
                return
            lo, hi = min(s0, s0 << t1), s1 << max(t1, 0) if s1 > 0 else s1
        ok = lo >= -H and hi < H
        if not ok and op in ("add", "sub"):
            # the mathematical result, correlation between the operands kept
            r = (D.add if op == "add" else D.sub)(a, b, w)
            if type(r) is T and r.op == "lin":
                for sg in (True, False):
                    l2, h2 = D.lin_math(r.args[0], r.args[1], w, sg, st.facts)
                    if l2 >= -H and h2 < H and self.exactlin(a, w, st, sg) and self.exactlin(b, w, st, sg):
                        ok = True
        self.oblige("overflow", ins, ok, lambda: "signed %s may leave %d bits: result in [%d, %d]" % (op, w, lo, hi))

    def exactlin(self, v, w, st, sg):
        """the signed value of v equals its linear form over the integers"""
        if type(v) is int:
            return True
        c, l = D.lin_of(v, w)
        lo, hi = D.lin_math(c, l, w, sg, st.facts)
        return lo >= -(1 << (w - 1)) and hi < 1 << (w - 1) and (sg or all(b.slo >= 0 for b, _ in l))

    def oddbin(self, ins, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            self.oblige("uninit", ins, False, lambda: "%s on an uninitialised value" % op)
            return D.fresh("u", w)
        # pointer difference and the like
        if type(a) is Opq and a.kind == "ptrint" and op == "sub":
            if type(b) is Opq and b.kind == "ptrint" and a.v.obj is b.v.obj:
                x, y = a.v.off, b.v.off
                return D.sub(x if type(x) is T else x & ((1 << 64) - 1), y if type(y) is T else y & ((1 << 64) - 1), 64)
        if type(a) is Opq and a.kind == "ptrint" and op == "add" and isinstance(b, (int, T)):
            return Opq("ptrint", self.padd(a.v, 0, b) if type(b) is T else self.padd(a.v, D.sgn(b, 64), None))
        return D.fresh("o", w)

    def i_icmp(self, ins, st, regs):
        pred, ty = ins.x
        a = self.val(ins.a[0], regs, ty)
        b = self.val(ins.a[1], regs, ty)
        r = self.icmp(ins, st, pred, ty, a, b)
        if self.oncmp is not None and type(r) is T:
            r = self.oncmp(ins, r)
        regs[ins.res] = r

    def icmp(self, ins, st, pred, ty, a, b):
        if ty.k == "ptr":
            if type(a) is PIte:
                return self.mergeval(a.c, self.icmp(ins, st, pred, ty, a.a, b), self.icmp(ins, st, pred, ty, a.b, b), 1)
            if type(b) is PIte:
                return self.mergeval(b.c, self.icmp(ins, st, pred, ty, a, b.a), self.icmp(ins, st, pred, ty, a, b.b), 1)
            if type(a) is Ptr and type(b) is Ptr and a.obj is b.obj:
                x = a.off if type(a.off) is T else a.off & ((1 << 64) - 1)
                y = b.off if type(b.off) is T else b.off & ((1 << 64) - 1)
                return D.icmp(pred, x, y, 64)
            if pred in ("eq", "ne"):
                if (type(a) is Ptr and type(b) is int) or (type(b) is Ptr and type(a) is int):
                    return 0 if pred == "eq" else 1
                if type(a) is int and type(b) is int:
                    return D.icmp(pred, a, b, 64)
                if type(a) is Ptr and type(b) is Ptr:
                    return 0 if pred == "eq" else 1
            return D.fresh("pc", 1)
        if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
            if a is UNDEF or b is UNDEF:
                self.oblige("uninit", ins, False, lambda: "comparison of an uninitialised value")
            return D.fresh("oc", 1)
        return D.icmp(pred, a, b, ty.n)

    def i_select(self, ins, st, regs):
        c = self.val(ins.a[0], regs)
        a = self.val(ins.a[1], regs, ins.ty)
        b = self.val(ins.a[2], regs, ins.ty)
        if type(c) is T:
            t = self.decide(st, c)
            if t is not None:
                c = t
        if type(c) is int:
            regs[ins.res] = a if c else b
        elif type(c) is T:
            regs[ins.res] = self.mergeval(c, a, b, self.tyw(ins.ty))
        else:
            self.oblige("uninit", ins, False, lambda: "select on an uninitialised value")
            regs[ins.res] = self.mergeval(D.fresh("c", 1), a, b, self.tyw(ins.ty))

    def mergeval(self, c, a, b, w=0):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if (ta is int or ta is T) and (tb is int or tb is T):
            if ta is int and tb is int and a == b:
                return a
            ww = a.w if ta is T else b.w if tb is T else w
            if not ww:
                ww = 64
            return D.itew(c, a, b, ww)
        if a is UNDEF or b is UNDEF:
            # value defined on one side only: keep the defined one
            return b if a is UNDEF else a
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.mergeval(c, x, y) for x, y in zip(a, b))
        if ta in (float, R) and tb in (float, R):
            if ta is float and tb is float and a == b:
                return a
            if RL.equal(a, b, 1e-13):
                return a
            return self.rite(c, a, b)
        if ta is Ptr and tb is Ptr:
            if a == b:
                return a
            if a.obj is b.obj:
                x = a.off if type(a.off) is T else a.off & ((1 << 64) - 1)
                y = b.off if type(b.off) is T else b.off & ((1 << 64) - 1)
                return Ptr(a.obj, D.itew(c, x, y, 64))
            return PIte(c, a, b)
        if ta in (Ptr, PIte, int) and tb in (Ptr, PIte, int):
            return PIte(c, a, b)
        if ta is Opq and tb is Opq:
            if a == b:
                return a
            return Opq("ite", (c, a, b))
        if ta is Fn and tb is Fn and a == b:
            return a
        return Opq("ite", (c, a, b))

    def rite(self, c, a, b):
        if c.op == "not":
            c, a, b = c.args[0], b, a
        x = RL.single(a) if type(a) is R else None
        if x is not None and x.kind == "ite" and x.args[0] is c:
            a = x.args[1]
        x = RL.single(b) if type(b) is R else None
        if x is not None and x.kind == "ite" and x.args[0] is c:
            b = x.args[2]
        if RL.equal(a, b, 1e-13):
            return a
        key = ("ite", c) + tuple(RL.sig(z) if type(z) is R else "%.10g" % z if type(z) is float else id(z) for z in (a, b))
        for x in RL.FN.setdefault(key, []):
            if RL.equal(x.args[1], a, 1e-13) and RL.equal(x.args[2], b, 1e-13):
                return RL.of_atom(x)
        at = RL.Atom()
        at.id = len(RL.ATOMS)
        at.kind, at.args = "ite", (c, a, b)
        RL.ATOMS.append(at)
        RL.FN[key].append(at)
        return RL.of_atom(at)

    # casts
    def i_zext(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if type(v) is int or type(v) is T:
            regs[ins.res] = D.zext(v, ins.x.n, ins.ty.n)
        else:
            regs[ins.res] = self.oddcast(ins, v)

    def i_sext(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if type(v) is int or type(v) is T:
            regs[ins.res] = D.sext(v, ins.x.n, ins.ty.n)
        else:
            regs[ins.res] = self.oddcast(ins, v)

    def i_trunc(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if type(v) is int or type(v) is T:
            regs[ins.res] = D.trunc(v, ins.x.n, ins.ty.n)
        else:
            regs[ins.res] = self.oddcast(ins, v)

    def oddcast(self, ins, v):
        if v is UNDEF:
            self.oblige("uninit", ins, False, lambda: "%s of an uninitialised value" % ins.op)
        return D.fresh("oc", ins.ty.n)

    def i_freeze(self, ins, st, regs):
        regs[ins.res] = self.val(ins.a[0], regs, ins.ty)

    def i_bitcast(self, ins, st, regs):
        regs[ins.res] = self.conv(self.val(ins.a[0], regs, ins.x), ins.ty)

    def i_ptrtoint(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        regs[ins.res] = v if type(v) is int else Opq("ptrint", v)

    def i_inttoptr(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        regs[ins.res] = v.v if type(v) is Opq and v.kind == "ptrint" else v

    def i_extract(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        for k in ins.x:
            if v is UNDEF:
                break
            v = v[k]
        regs[ins.res] = v

    def i_insert(self, ins, st, regs):
        v = self.val(ins.a[0], regs, ins.ty)
        x = self.val(ins.a[1], regs)

        def put(v, ty, idx):
            if not idx:
                return x
            n = len(ty.e) if ty.k == "st" else ty.n
            l = [UNDEF] * n if v is UNDEF else list(v)
            l[idx[0]] = put(l[idx[0]], ty.e[idx[0]] if ty.k == "st" else ty.e, idx[1:])
            return tuple(l)
        regs[ins.res] = put(v, ins.ty, ins.x)

    # -------------------------------------------------------------- doubles
    def mkfbin(self, op):
        def h(ins, st, regs):
            a = self.val(ins.a[0], regs, ins.ty)
            b = self.val(ins.a[1], regs, ins.ty)
            regs[ins.res] = self.fbin(op, a, b, ins)
        return h

    def fbin(self, op, a, b, ins=None):
        ta, tb = type(a), type(b)
        if ta is LV or tb is LV:
            return self.lvbin(op, a, b)
        if ta not in (float, R) or tb not in (float, R):
            if a is UNDEF or b is UNDEF:
                self.oblige("uninit", ins, False, lambda: "%s on an uninitialised value" % op)
            return RL.of_atom(RL.mkatom("any", self.bump()))
        if op == "fadd":
            return RL.add(a, b)
        if op == "fsub":
            return RL.add(a, b, -1.0)
        if op == "fmul":
            return RL.mul(a, b)
        return RL.div(a, b)

    def lvbin(self, op, a, b):
        if op in ("fadd", "fsub"):
            s = 1.0 if op == "fadd" else -1.0
            if type(a) is LV and type(b) is LV:
                return LV(a.v + b.v if s > 0 else a.v - b.v)
            if type(a) is LV and type(b) is float:
                if b == 0:
                    return a
                v = a.v.copy()
                v[-1] += s * b
                return LV(v)
            if type(a) is float:
                v = s * b.v
                v[-1] += a
                return LV(v)
        elif op == "fmul":
            if type(a) is LV and type(b) is float:
                return LV(a.v * b)
            if type(b) is LV and type(a) is float:
                return LV(b.v * a)
        elif op == "fdiv" and type(a) is LV and type(b) is float and b:
            return LV(a.v / b)
        raise Stop("non-linear operation on the transform's input")

    def i_fneg(self, ins, st, regs):
        a = self.val(ins.a[0], regs, ins.ty)
        if type(a) is LV:
            regs[ins.res] = LV(-a.v)
        elif type(a) in (float, R):
            regs[ins.res] = RL.neg(a)
        else:
            regs[ins.res] = RL.of_atom(RL.mkatom("any", self.bump()))

    def i_fcmp(self, ins, st, regs):
        pred, ty = ins.x
        a = self.val(ins.a[0], regs, ty)
        b = self.val(ins.a[1], regs, ty)
        r = self.fcmp(pred, a, b)
        if self.oncmp is not None and type(r) is T:
            r = self.oncmp(ins, r)
        regs[ins.res] = r

    def fcmp(self, pred, a, b):
        if pred == "uno":
            return 0
        if pred == "ord":
            return 1
        if type(a) not in (float, R) or type(b) not in (float, R):
            return D.fresh("fc", 1)
        p = pred[1:]
        if p == "lt":
            return self.flt(a, b)
        if p == "gt":
            return self.flt(b, a)
        if p == "le":
            return D.bnot(self.flt(b, a))
        if p == "ge":
            return D.bnot(self.flt(a, b))
        d = RL.sub(a, b)
        if type(d) is float:
            e = 1 if d == 0 else 0
        else:
            e = self.fatom("feq", d)
        return e if p == "eq" else D.bnot(e)

    def flt(self, a, b):
        if type(a) is float and type(b) is float:
            return 1 if a < b else 0
        # keep the two sides: a < b
        d = RL.sub(a, b)
        if type(d) is float:
            return 1 if d < 0 else 0
        return self.fatom("flt", d)

    def fatom(self, kind, d):
        key = ("cmp", kind, RL.sig(d))
        for x, t in RL.FN.setdefault(key, []):
            if RL.equal(x, d, 1e-13):
                return t
        t = D.mk(kind, 1, (FKey(d),))
        RL.FN[key].append((d, t))
        return t

    def of_int(self, v, w, signed):
        """exact real value of an integer"""
        if type(v) is int:
            return float(D.sgn(v, w) if signed else v)
        if signed and v.slo >= 0:
            signed = False
        if v.op == "fromreal":
            return v.args[0].r
        if v.op == "lin":
            c, bs = v.args
            lo, hi = D.lin_math(c, bs, w, signed)
            H = 1 << (w - 1)
            if (signed and lo >= -H and hi < H) or (not signed and lo >= 0 and hi < 1 << w):
                r = RL.const(D.sgn(c, w))
                for b, k in bs:
                    r = RL.add(r, self.of_int(b, w, signed), float(D.sgn(k, w)))
                return r
        if v.op == "ite":
            a, b = self.of_int(v.args[1], w, signed), self.of_int(v.args[2], w, signed)
            return self.rite(v.args[0], a, b)
        if v.op in ("zext", "sext"):
            x = v.args[0]
            return self.of_int(x, x.w, v.op == "sext")
        if v.op == "trunc" and v.args[0].op == "fromreal":
            return v.args[0].args[0].r
        return RL.of_atom(RL.mkatom("int", v, signed and v.slo < 0))

    def i_sitofp(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if not isinstance(v, (int, T)):
            if v is UNDEF:
                self.oblige("uninit", ins, False, lambda: "conversion of an uninitialised value")
            regs[ins.res] = RL.of_atom(RL.mkatom("any", self.bump()))
            return
        regs[ins.res] = self.of_int(v, ins.x.n, True)

    def i_uitofp(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if not isinstance(v, (int, T)):
            regs[ins.res] = RL.of_atom(RL.mkatom("any", self.bump()))
            return
        regs[ins.res] = self.of_int(v, ins.x.n, False)

    def i_fptosi(self, ins, st, regs, signed=True):
        v = self.val(ins.a[0], regs)
        w = ins.ty.n
        if type(v) is float:
            if v != v or abs(v) >= 1 << 63:
                regs[ins.res] = D.fresh("fp", w)
            else:
                regs[ins.res] = int(v) & ((1 << w) - 1)
            return
        if type(v) is not R:
            regs[ins.res] = D.fresh("fp", w)
            return
        regs[ins.res] = self.fromreal(v, w)

    def fromreal(self, v, w, rng=None):
        # an integer-valued atom converts back to itself
        a = RL.single(v)
        if a is not None and a.kind == "int":
            t = a.args[0]
            if t.w == w:
                return t
            if t.w < w:
                return D.sext(t, t.w, w) if a.args[1] else D.zext(t, t.w, w)
            if a.args[1] and t.slo >= -(1 << (w - 1)) and t.shi < 1 << (w - 1) or t.uhi < 1 << (w - 1):
                return D.trunc(t, t.w, w)
        for x, t in RL.FN.setdefault(("fromreal", w, RL.sig(v)), []):
            if RL.equal(x, v, 1e-13):
                return t
        t = D.mk("fromreal", w, (FKey(v),), rng)
        RL.FN[("fromreal", w, RL.sig(v))].append((v, t))
        return t

    def i_fptoui(self, ins, st, regs):
        self.i_fptosi(ins, st, regs, False)

    # ---------------------------------------------------------- merging
    def merge(self, A, B, pa=None, pb=None):
        """join two states (and tuples of phi values); returns (state, merged phis)"""
        common = A.pc & B.pc
        ra, rb = A.pc - common, B.pc - common
        sel = None
        extra = None
        if ra and rb:
            for x in ra:
                if D.bnot(x) in rb:
                    sel = x
                    break
            if sel is not None:
                r1, r2 = ra - {sel}, rb - {D.bnot(sel)}
                if len(r1) + len(r2) == 0:
                    pass
                elif len(r1) + len(r2) <= 3000:
                    extra = D.bor(self.conjs(r1 | {sel}), self.conjs(r2 | {D.bnot(sel)}))
            else:
                ca, cb = self.conjs(ra), self.conjs(rb)
                if D.bnot(ca) is cb:
                    sel = ca
                else:
                    for x, other, flip in [(x, rb, False) for x in ra] + [(x, ra, True) for x in rb]:
                        # disjunctive literal refuted by the other side
                        if x.op == "not" and x.args[0].op == "band" and (x.args[0].args[0] <= other or x.args[0].args[0] - common <= other):
                            sel = D.bnot(x) if flip else x
                            break
                    if sel is not None:
                        extra = D.bor(ca, cb)
        elif not ra and not rb:
            sel = None
        if sel is None:
            sel = D.fresh("join", 1)
        # A on sel, B otherwise
        st = State()
        pc = common
        if extra is not None and type(extra) is T:
            pc = pc | (extra.args[0] if extra.op == "band" else frozenset((extra,)))
        if pc == A.pc:
            st.pc, st.facts = A.pc, A.facts
        elif pc == B.pc:
            st.pc, st.facts = B.pc, B.facts
        else:
            self.setpc(st, pc)
        # facts that hold on both sides although the literals differ
        st.ev = A.ev if A.ev is B.ev else A.ev if len(A.ev) >= len(B.ev) and A.ev[:len(B.ev)] == B.ev else B.ev if B.ev[:len(A.ev)] == A.ev else A.ev + (("joined", sel) ,) + B.ev
        ma, mb = A.mem, B.mem
        mem = dict(ma)
        for oid, cb in mb.items():
            ca = ma.get(oid)
            if ca is None:
                mem[oid] = cb
                o = OBJS[oid]
                if o.gen is not None:
                    mem[oid] = self.mergecells(sel, Cells(None), cb, st, o)
                continue
            if ca is cb:
                continue
            o = OBJS[oid]
            mem[oid] = self.mergecells(sel, ca, cb, st, o if o.gen is not None else None)
        for oid, ca in ma.items():
            if oid not in mb:
                o = OBJS[oid]
                if o.gen is not None:
                    mem[oid] = self.mergecells(sel, ca, Cells(None), st, o)
        st.mem = mem
        ph = None
        if pa is not None:
            ph = [self.mergeval(sel, x, y, w) for (x, w), (y, _) in zip(pa, pb)]
            ph = [(v, w) for v, (_, w) in zip(ph, pa)]
        A.tok = object()
        B.tok = object()
        return st, ph

    def conjs(self, s):
        r = 1
        if len(s) > 24:
            # part of one path condition: simplified already
            return D.mk("band", 1, (frozenset(s),))
        if len(s) > 1:
            # band() pairwise keeps the simplifications
            for x in s:
                r = D.band(r, x)
            return r
        return next(iter(s)) if s else 1

    def mergecells(self, sel, ca, cb, st, obj):
        n = Cells(st.tok)
        da, db = ca.d, cb.d
        if ca.summ is not None or cb.summ is not None:
            # hull
            rs, size, kind = [], None, "i"
            for c in (ca, cb):
                if c.summ is not None:
                    size = c.summ[0] if size in (None, c.summ[0]) else 0
                    rs.append(c.summ[1:5])
                    kind = c.summ[5]
            for c in (ca, cb):
                if c.summ is None and obj is not None:
                    size = 0
                for k, (s, x) in c.d.items():
                    if size is None or s == size:
                        if isinstance(x, (int, T)):
                            rs.append(D.r4(x, 8 * s))
                        elif x is not UNDEF:
                            size = 0
                    else:
                        size = 0
            if not size:
                n.summ = (1, 0, 255, -128, 127, kind)
            else:
                n.summ = (size, min(x[0] for x in rs), max(x[1] for x in rs), min(x[2] for x in rs), max(x[3] for x in rs), kind)
            return n
        d = n.d
        for k, ea in da.items():
            eb = db.get(k)
            if ea is eb:
                d[k] = ea
                continue
            if eb is None:
                if obj is not None:
                    y = self.geng(obj, k, ea[0], None)
                    # overlapping differently sized cell on the other side
                    if self.overl(db, k, ea[0]):
                        y = self.asm2(cb, obj, k, ea[0])
                    d[k] = (ea[0], self.mergeval(sel, ea[1], y, 8 * ea[0]))
                elif self.overl(db, k, ea[0]):
                    y = self.asm2(cb, obj, k, ea[0])
                    d[k] = (ea[0], self.mergeval(sel, ea[1], y, 8 * ea[0]))
                else:
                    d[k] = ea
                continue
            if ea[0] == eb[0]:
                v = self.mergeval(sel, ea[1], eb[1], 8 * ea[0])
                d[k] = ea if v is ea[1] else (ea[0], v)
            else:
                if ea[0] > eb[0]:
                    d[k] = (ea[0], self.mergeval(sel, ea[1], self.asm2(cb, obj, k, ea[0]), 8 * ea[0]))
                else:
                    d[k] = (eb[0], self.mergeval(sel, self.asm2(ca, obj, k, eb[0]), eb[1], 8 * eb[0]))
        for k, eb in db.items():
            if k in da:
                continue
            if obj is not None and not self.overl(da, k, eb[0]):
                x = self.geng(obj, k, eb[0], None)
                d[k] = (eb[0], self.mergeval(sel, x, eb[1], 8 * eb[0]))
            elif self.overl(da, k, eb[0]):
                # covered by a larger cell of the other side already merged
                if not self.overl(d, k, eb[0]):
                    d[k] = (eb[0], self.mergeval(sel, self.asm2(ca, obj, k, eb[0]), eb[1], 8 * eb[0]))
            else:
                d[k] = eb
        # drop overlaps
        if len(d) > 1:
            ks = sorted(d)
            end = -1
            for k in ks:
                if k < end:
                    del d[k]
                else:
                    end = k + d[k][0]
        return n

    def overl(self, d, off, size):
        if len(d) == 0:
            return False
        for k in range(off + size - 1, off - 17, -1):
            x = d.get(k)
            if x is not None and k + x[0] > off:
                return True
        return False

    def asm2(self, c, obj, off, size):
        s = State()
        o = obj or Obj("tmp", 1 << 30, "alloca")
        s.mem[o.id] = c
        return self.assemble(s, o, off, size)

    # ------------------------------------------------------- control flow
    def call(self, f, args, st):
        """run function f; returns (state, return value) or None when it does not return"""
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Stop("call depth exceeded in " + f.dem)
        self.stackname.append(f.dem)
        self.visited[f.name] = self.visited.get(f.name, 0) + 1
        regs = dict(zip(f.args, args))
        info = self.info(f)
        rets = []
        ent = [(st, ())]
        self.region(f, info, None, {f.entry: ent}, regs, rets)
        self.stackname.pop()
        self.depth -= 1
        if not rets:
            return None
        w = f.ret.n if f.ret.k == "i" else 0
        st, v = rets[0]
        v = [(v, w)]
        for s2, v2 in rets[1:]:
            st, v = self.merge(st, s2, v, [(v2, w)])
        return st, v[0][0]

    def join_in(self, f, b, inc, regs):
        """merge the incoming states of a block and bind its phis"""
        st, ph = inc[0]
        for s2, p2 in inc[1:]:
            st, ph = self.merge(st, s2, ph, p2)
        for ins, (v, _) in zip(f.blocks[b].phis, ph):
            regs[ins.res] = v
        return st

    def edge(self, f, src, dst, regs):
        out = []
        for ph in f.blocks[dst].phis:
            out.append((self.val(ph.x[src], regs, ph.ty), ph.ty.n if ph.ty.k == "i" else 0))
        return out

    def region(self, f, info, L, pend, regs, rets, exits=None):
        """run the acyclic part of loop L's body (or of the whole function).
        pend: block -> incoming (state, phi values).  Edges leaving L go to exits;
        edges to L's head go to exits under the key None."""
        blocks = L.rpo if L is not None else info.rpo
        inside = L.blocks if L is not None else None
        head = L.head if L is not None else None
        lh = head
        first = True
        for b in blocks:
            inc = pend.pop(b, None)
            if not inc:
                continue
            li = info.inner.get(b)
            if li != lh:
                # b belongs to an inner loop: it must be that loop's head
                h = li
                while info.loops[h].parent != lh:
                    h = info.loops[h].parent
                if b == h:
                    IL = info.loops[h]
                    ex = self.loop(f, info, IL, inc, regs, rets)
                    for (src, dst, st, ph) in ex:
                        if inside is not None and dst not in inside:
                            exits.append((src, dst, st, ph))
                        elif dst == head:
                            exits.append((src, None, st, ph))
                        else:
                            pend.setdefault(dst, []).append((st, ph))
                continue
            st = self.join_in(f, b, inc, regs)
            for dst, s2 in self.block(f, b, st, regs, rets):
                ph = self.edge(f, b, dst, regs)
                if inside is not None and dst not in inside:
                    exits.append((b, dst, s2, ph))
                elif dst == head:
                    exits.append((b, None, s2, ph))
                else:
                    pend.setdefault(dst, []).append((s2, ph))
        # anything left belongs to inner-loop blocks reached out of order
        for b in pend:
            if pend[b]:
                raise Stop("unprocessed block %s in %s" % (b, f.dem))

    def block(self, f, b, st, regs, rets):
        d = self.d
        blk = f.blocks[b]
        self.steps += len(blk.ins)
        if self.steps > self.maxsteps:
            raise Stop("more than %d steps in %s" % (self.maxsteps, f.dem))
        for ins in blk.ins:
            op = ins.op
            h = d.get(op)
            if h is not None:
                h(ins, st, regs)
                continue
            if op == "call":
                r = self.do_call(ins, st, regs)
                if r is None:
                    return ()
                st = r
            elif op == "br":
                if not ins.a:
                    return ((ins.x[0], st),)
                c = self.val(ins.a[0], regs)
                if c is UNDEF or not isinstance(c, (int, T)):
                    self.oblige("uninit", ins, False, lambda: "branch on an uninitialised value")
                    c = D.fresh("c", 1)
                if type(c) is T:
                    t = self.decide(st, c)
                    if self.onbranch is not None and not (self.mergeham and self.info(f).hammock(b)):
                        # 0 or 1: the path to follow
                        r = self.onbranch(ins, c, t, st)
                        if t is None and type(r) is int and self.assume(st, c, bool(r)):
                            return ((ins.x[0] if r else ins.x[1], st),)
                    if t is None:
                        if ins.x[0] == ins.x[1]:
                            return ((ins.x[0], st),)
                        self.forks += 1
                        if self.maxcpu is not None and time.process_time() > self.maxcpu:
                            raise Stop("too many undetermined branches in %s" % f.dem)
                        # the facts known here are those known where both paths meet
                        self.pcf[st.pc] = (st.pc, st.facts)
                        if len(self.pcf) > 64:
                            del self.pcf[next(iter(self.pcf))]
                        s2 = st.fork()
                        out = []
                        if self.assume(st, c, True):
                            out.append((ins.x[0], st))
                        if self.assume(s2, c, False):
                            out.append((ins.x[1], s2))
                        self.undet = True
                        return out
                    c = t
                    self.soft = True
                else:
                    self.condec = True
                return ((ins.x[0] if c else ins.x[1], st),)
            elif op == "ret":
                rets.append((st, self.val(ins.a[0], regs, ins.ty) if ins.a else None))
                return ()
            elif op == "switch":
                return self.switch(ins, st, regs)
            elif op == "unreachable":
                return ()
            else:
                raise Stop("instruction " + op)
        raise Stop("no terminator")

    def switch(self, ins, st, regs):
        v = self.val(ins.a[0], regs)
        if type(v) is int:
            for k, b in ins.x[1]:
                if k == v:
                    return ((b, st),)
            return ((ins.x[0], st),)
        w = ins.ty.n
        out = []
        for k, b in ins.x[1]:
            c = D.eq(v, k, w)
            t = self.decide(st, c)
            if t == 0:
                continue
            if t == 1:
                out.append((b, st))
                return out
            s2 = st.fork()
            self.assume(s2, c, True)
            out.append((b, s2))
            self.assume(st, c, False)
        out.append((ins.x[0], st))
        self.undet = True
        return out

    undet = soft = condec = False

    def loop(self, f, info, L, inc, regs, rets):
        """run loop L from the given entry states; returns its exit edges"""
        exits = []
        K = self.K
        for pre, k in self.loopK.items():
            if pre in f.dem:
                K = k
        B = f.blocks
        n = undet = 0
        hphis = B[L.head].phis
        while True:
            start = inc
            if len(inc) > 1:
                st, ph = inc[0]
                for s2, p2 in inc[1:]:
                    st, ph = self.merge(st, s2, ph, p2)
                inc = [(st, ph)]
            st0, ph0 = inc[0]
            # keep a copy in case the loop has to be generalised from here
            snap = st0.fork()
            ex = []
            rets2 = []
            hm = self.evmark()
            ctl = self.run_iter(f, info, L, st0, ph0, regs, rets2, ex)
            back = [(s, p) for (src, dst, s, p) in ex if dst is None]
            outs = [e for e in ex if e[1] is not None]
            n += 1
            if (outs or rets2) and back and not ctl:
                undet += 1
                if undet > K:
                    # generalise from the state at this iteration's start
                    self.evreset(hm)
                    for e in self.generalise(f, info, L, snap, ph0, regs, rets):
                        exits.append(e)
                    self.generic += 1
                    return exits
            exits.extend(outs)
            rets.extend(rets2)
            if not back:
                self.unrolled += 1
                return exits
            if n > self.maxtrip:
                raise Stop("loop in %s does not terminate abstractly" % f.dem)
            inc = back

    def run_iter(self, f, info, L, st, ph, regs, rets, ex):
        """one iteration; returns True if some exit test of this loop was decided by
        known values (a counted loop)"""
        ctl = False
        key = (f.name, L.head)
        xb = self.exitblocks.get(key)
        if xb is None:
            xb = set()
            for b in L.blocks:
                if info.inner.get(b) == L.head and any(s not in L.blocks for s in f.blocks[b].succ) and len(f.blocks[b].succ) > 1:
                    xb.add(b)
            # an exit test put together by && or ||: the tests it consists of
            work = list(xb)
            while work:
                b = work.pop()
                t = f.blocks[b].ins[-1]
                if t.op != "br" or not t.a or t.a[0][0] != "r":
                    continue
                for q in f.blocks[b].phis:
                    if q.res == t.a[0][1]:
                        for src, v in q.x.items():
                            if v[0] != "r" and src in L.blocks and info.inner.get(src) == L.head and src not in xb and len(f.blocks[src].succ) > 1:
                                xb.add(src)
                                work.append(src)
            self.exitblocks[key] = xb
        self.region(f, info, L, {L.head: [(st, ph)]}, regs, rets, ex)
        for b in xb:
            t = f.blocks[b].ins[-1]
            if t.op == "br" and t.a and t.a[0][0] == "r":
                c = regs.get(t.a[0][1])
                if type(c) is int:
                    df = self.defof(f, t.a[0][1])
                    if df is not None and df.op == "icmp" and any(
                            x[0] == "r" and type(regs.get(x[1])) is T for x in df.a):
                        continue
                    ctl = True
        return ctl

    def defof(self, f, reg):
        d = self.defs.get(f.name)
        if d is None:
            d = self.defs[f.name] = {i.res: i for b in f.blocks.values() for i in b.ins if i.res}
        return d.get(reg)

    # ------------------------------------------------- arbitrary iteration
    def generalise(self, f, info, L, st0, ph0, regs, rets):
        """analyse the loop body once for an arbitrary iteration: values the body
        changes are replaced by unknowns whose intervals form an inductive
        invariant (widening, then narrowing)."""
        hphis = f.blocks[L.head].phis
        rec, self.rec = self.rec, False
        unk = {}          # location -> current abstraction
        thr = self.thresholds(f)
        rnd = 0
        names = {}

        def start():
            st = st0.fork()
            ph = []
            for i, (v, w) in enumerate(ph0):
                u = unk.get(("phi", i))
                ph.append((self.inst(u, v, w, ("phi", i), names), w))
            for k, u in unk.items():
                if k[0] == "mem":
                    _, oid, off = k
                    o = OBJS[oid]
                    if off == "summ":
                        c = st.cells(o)
                        c.d.clear()
                        c.summ = u
                    else:
                        size = u[1]
                        self.write(st, o, off, size, self.inst(u, None, 8 * size, k, names))
            return st, ph

        narrowed = 0
        phase = "widen"
        mark = Obj.N[0]
        while True:
            rnd += 1
            if rnd > 60:
                raise Stop("no fixpoint for the loop at %s in %s" % (L.head, f.dem))
            st, ph = start()
            h = st.fork()
            ex, r2 = [], []
            hm = self.evmark()
            self.run_iter(f, info, L, st, ph, regs, r2, ex)
            self.evreset(hm)
            back = [(s, p) for (src, dst, s, p) in ex if dst is None]
            if not back:
                break
            new = {}
            for s, p in back:
                for i, (v, w) in enumerate(p):
                    k = ("phi", i)
                    self.joinloc(new, k, ph0[i][0], ph[i][0], v, w, s, unk)
                for oid, c in s.mem.items():
                    hc = h.mem.get(oid)
                    if hc is c or OBJS[oid].gen is None and hc is None and oid not in st0.mem and OBJS[oid].id > mark:
                        continue
                    o = OBJS[oid]
                    if c.summ is not None or (hc is not None and hc.summ is not None):
                        k = ("mem", oid, "summ")
                        a = c.summ
                        if a is None:
                            a = hc.summ
                        if hc is not None and hc.summ is None:
                            # the entry contents belong to the hull as well
                            tmp = self.mergecells(None, self.nocells(hc), self.onlysumm(a), st, o if o.gen else None)
                            a = tmp.summ
                        old = unk.get(k) or new.get(k)
                        if old is not None:
                            a = self.hullsumm(old, a)
                        new[k] = a
                        continue
                    for off, (size, v) in c.d.items():
                        e = hc.d.get(off) if hc is not None else None
                        if e is not None and e[1] is v:
                            continue
                        hv = self.read(h, o, off, size, None)
                        e0 = self.read(st0, o, off, size, None)
                        self.joinloc(new, ("mem", oid, off), e0, hv, v, 8 * size, s, unk, size)
            # compare with the current abstraction
            stable = True
            nxt = dict(unk)
            for k, a in new.items():
                u = unk.get(k)
                if u is None:
                    nxt[k] = a
                    stable = False
                elif not self.leq(a, u):
                    nxt[k] = self.widen(u, a, rnd, thr) if phase == "widen" else self.hull(u, a)
                    stable = False
            for k in list(nxt):
                if k[0] == "mem" and k[2] != "summ" and ("mem", k[1], "summ") in nxt:
                    del nxt[k]
            if phase == "widen":
                unk = nxt
                if stable:
                    phase = "narrow"
                    good = dict(unk)
                    cand = {k: self.tighter(u, new.get(k)) for k, u in unk.items()}
                    if all(self.same(cand[k], unk[k]) for k in unk):
                        break
                    unk = cand
                    continue
            else:
                if stable:
                    good = dict(unk)
                    narrowed += 1
                    cand = {k: self.tighter(u, new.get(k)) for k, u in unk.items()}
                    if narrowed >= 3 or all(self.same(cand[k], unk[k]) for k in unk):
                        break
                    unk = cand
                else:
                    unk = good
                    break
        # final pass with obligations switched on
        self.rec = rec
        st, ph = start()
        self.loopinfo.append((f.dem, L.head, dict(unk), list(ph)))
        ex, r2 = [], []
        for ins, (v, _) in zip(hphis, ph):
            pass
        self.run_iter(f, info, L, st, ph, regs, r2, ex)
        rets.extend(r2)
        return [e for e in ex if e[1] is not None]

    def evmark(self):
        return len(self.events)

    def evreset(self, m):
        del self.events[m:]

    def thresholds(self, f):
        k = f.name
        r = self.thrc.get(k)
        if r is None:
            s = set(THRESH)
            for b in f.blocks.values():
                for ins in b.ins:
                    for a in ins.a or ():
                        if type(a) is tuple and a[0] == "c" and type(a[1]) is int and a[1] < 1 << 40:
                            s.update((a[1] - 1, a[1], a[1] + 1))
            r = self.thrc[k] = sorted(s)
        return r


    def nocells(self, c):
        n = Cells(None)
        n.d = dict(c.d)
        return n

    def onlysumm(self, s):
        n = Cells(None)
        n.summ = s
        return n

    def hullsumm(self, a, b):
        if a[0] != b[0]:
            return (1, 0, 255, -128, 127, b[5])
        return (a[0], min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3]), max(a[4], b[4]), b[5])

    # unknown descriptors: ("i", size, (ulo,uhi,slo,shi)) | ("d", size) | ("p", size, obj, desc) | ("o", size)
    def inst(self, u, v, w, k, names):
        if u is None:
            return v
        if u[0] == "i":
            r = u[2]
            if r[0] == r[1]:
                return r[0]
            key = (k, r)
            t = names.get(key)
            if t is None:
                t = names[key] = D.mk("atom", w or 64, ("L%s~%d" % (k[1] if k[0] == "phi" else "m%s" % (k[2],), self.bump()), r), r)
            return t
        if u[0] == "d":
            t = names.get(k)
            if t is None:
                t = names[k] = RL.of_atom(RL.mkatom("any", self.bump()))
            return t
        if u[0] == "p":
            return Ptr(u[2], self.inst(u[3], None, 64, (k[0], str(k[1:])), names))
        if u[0] == "o":
            key = (k, u)
            t = names.get(key)
            if t is None:
                if u[2] == "xof" and u[3] is not None:
                    t = names[key] = Opq("xof", (u[3], (self.bump(), 0)))
                else:
                    t = names[key] = Opq(u[2], ("unknown", self.bump()))
            return t
        raise Stop("unknown descriptor")

    def joinloc(self, new, k, v0, vh, v, w, st, unk, size=None):
        """record that location k holds v at the back edge (v0 at loop entry)"""
        if v is vh and k not in unk:
            return
        if type(v) is int and type(vh) is int and v == vh and k not in unk:
            return
        if type(v) is Ptr and v == vh and k not in unk:
            return
        if type(v) is R and type(vh) in (R, float) and RL.equal(v, vh) and k not in unk:
            return
        if type(v) is tuple:
            if v == vh:
                return
            raise Stop("aggregate changed by a loop")
        sz = size or (w + 7) // 8
        if isinstance(v, (int, T)):
            u, s = D.rng_under(v, w, st.facts)
            d = ("i", sz, (u[0], u[1], s[0], s[1]))
            if isinstance(v0, (int, T)):
                u, s = D.rng_under(v0, w, st.facts)
                d = self.hull(d, ("i", sz, (u[0], u[1], s[0], s[1])))
            elif v0 is not UNDEF:
                M = 1 << w
                d = ("i", sz, (0, M - 1, -(M >> 1), (M >> 1) - 1))
        elif type(v) in (float, R):
            d = ("d", sz)
        elif type(v) is Ptr:
            if type(v0) is Ptr and v0.obj is v.obj:
                def ro(x):
                    x = x.off if type(x.off) is T else x.off & ((1 << 64) - 1)
                    u, s = D.rng_under(x, 64, st.facts)
                    return ("i", 8, (u[0], u[1], s[0], s[1]))
                d = ("p", sz, v.obj, self.hull(ro(v), ro(v0)))
            elif type(v0) is Ptr:
                raise Stop("pointer changes its object in a loop")
            else:
                return
        elif type(v) is Opq:
            if v == vh and k not in unk:
                return
            ab = None
            if v.kind == "xof" and type(v0) is Opq and v0.kind == "xof" and len(v.v) == 2 and len(v0.v) == 2 and v.v[0] == v0.v[0]:
                ab = v.v[0]
            d = ("o", sz, v.kind, ab)
        elif v is UNDEF:
            return
        else:
            raise Stop("cannot generalise %r" % (v,))
        old = new.get(k)
        new[k] = d if old is None else self.hull(old, d)

    def hull(self, a, b):
        if a[0] == "i" and b[0] == "i":
            x, y = a[2], b[2]
            return ("i", a[1], (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3])))
        if a[0] == "p" and b[0] == "p":
            return ("p", a[1], a[2], self.hull(a[3], b[3]))
        if type(a[0]) is int:
            return self.hullsumm(a, b)
        if a[0] == "o" and b[0] == "o" and a != b:
            return ("o", a[1], a[2] if a[2] == b[2] else "unknown", None)
        if a[0] != b[0]:
            return ("o", a[1], "unknown", None)
        return a

    def leq(self, a, u):
        if type(a[0]) is int:
            return a[0] == u[0] and a[1] >= u[1] and a[2] <= u[2] and a[3] >= u[3] and a[4] <= u[4]
        if a[0] == "i" and u[0] == "i":
            x, y = a[2], u[2]
            return x[0] >= y[0] and x[1] <= y[1] and x[2] >= y[2] and x[3] <= y[3]
        if a[0] == "p" and u[0] == "p":
            return self.leq(a[3], u[3])
        return a == u

    def widen(self, u, a, rnd, thr):
        h = self.hull(u, a)
        if rnd < 3:
            return h
        if type(h[0]) is int:
            M = 1 << (8 * h[0])
            r = self.wr(u[1:5], h[1:5], M, thr, rnd)
            return (h[0],) + r + (h[5],)
        if h[0] == "i":
            M = 1 << (8 * h[1]) if h[1] else 1 << 64
            return ("i", h[1], self.wr(u[2], h[2], M, thr, rnd))
        if h[0] == "p":
            return ("p", h[1], h[2], self.widen(u[3], a[3], rnd, thr))
        return h

    def wr(self, old, new, M, thr, rnd):
        H = M >> 1
        u0, u1, s0, s1 = new
        far = rnd > 12
        if u0 < old[0]:
            c = [t for t in thr if t <= u0]
            u0 = c[-1] if c and not far else 0
        if u1 > old[1]:
            c = [t for t in thr if t >= u1]
            u1 = c[0] if c and not far else M - 1
        if s0 < old[2]:
            c = [-t for t in thr if -t <= s0]
            s0 = c[0] if c and not far else -H
        if s1 > old[3]:
            c = [t for t in thr if t >= s1]
            s1 = c[0] if c and not far else H - 1
        return (u0, min(u1, M - 1), max(s0, -H), min(s1, H - 1))

    def tighter(self, u, a):
        if a is None:
            return u
        if type(u[0]) is int:
            return a if a[0] == u[0] else u
        if u[0] == "i" and a[0] == "i":
            x, y = u[2], a[2]
            return ("i", u[1], (max(x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]), min(x[3], y[3])))
        if u[0] == "p" and a[0] == "p":
            return ("p", u[1], u[2], self.tighter(u[3], a[3]))
        return u

    def same(self, a, b):
        return a == b

    # --------------------------------------------------------------- calls
    def do_call(self, ins, st, regs):
        callee = ins.x
        if callee[0] == "%":
            v = regs.get(callee)
            if type(v) is not Fn:
                raise Stop("indirect call to %r at %s" % (v, self.where(ins)))
            callee = v.name
        args = [self.val(a, regs, t) for a, t in zip(ins.a, ins.flags)]
        h = self.handler(callee)
        if h is not None:
            r = h(self, st, ins, args)
            if r is None:
                return None
            if r is not False:
                st, v = r
                if ins.res is not None:
                    regs[ins.res] = v
                return st
        f = self.m.funcs.get(callee)
        if f is None:
            raise Stop("no model for external %s at %s" % (self.m.dem.get(callee, callee), self.where(ins)))
        if self.trace:
            self.trace(f, args, st)
        r = self.call(f, args, st)
        if r is None:
            return None
        st, v = r
        if ins.res is not None:
            regs[ins.res] = v
        return st

    hcache = None

    def handler(self, callee):
        if self.hcache is None:
            self.hcache = {}
        if callee in self.hcache:
            return self.hcache[callee]
        h = self.icp.get(callee)
        if h is None:
            dem = self.m.dem.get(callee, callee)
            for p, hh in self.icpre:
                if p(dem):
                    h = hh
                    break
        self.hcache[callee] = h
        return h

    def add(self, pat, h):
        """intercept functions whose demangled name contains / matches pat"""
        import re
        rx = re.compile(pat)
        self.icpre.append((lambda d: rx.search(d) is not None, h))
        self.hcache = None


class FKey:
    """hashable wrapper of a real expression (identity-based)"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return RL.rshow(self.r)
