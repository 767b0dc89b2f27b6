"""Parser for the textual LLVM-18 IR of the analysis unit (see build_ir.py).

Only what clang emits for this project is supported; anything else raises
IRError, which the checks turn into "analysis broken" (exit 2), never into a
pass."""
import re
import struct
import subprocess


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "size", "align", "offs")

    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e
        self.size = self.align = None
        self.offs = None

    def __repr__(self):
        return "%s%s" % (self.k, self.n or "")


def layout(t):
    if t.size is not None:
        return t.size, t.align
    k = t.k
    if k == "i":
        s = 1
        while s * 8 < t.n:
            s *= 2
        t.size, t.align = s, min(s, 16)
    elif k == "double":
        t.size = t.align = 8
    elif k == "float":
        t.size = t.align = 4
    elif k == "x86_fp80":
        t.size = t.align = 16
    elif k == "ptr":
        t.size = t.align = 8
    elif k == "arr" or k == "vec":
        s, a = layout(t.e)
        t.size, t.align = s * t.n, a
    elif k == "st":
        off, al, offs = 0, 1, []
        for f in t.e:
            s, a = layout(f)
            if t.n:  # packed
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        t.size = (off + al - 1) // al * al
        t.align = al
        t.offs = offs
    elif k in ("void", "label", "metadata"):
        t.size, t.align = 0, 1
    elif k == "named":
        raise IRError("opaque type used by value")
    else:
        raise IRError("layout of " + k)
    return t.size, t.align


TOK = re.compile(
    r'\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")|([%@](?:"[^"]*"|[-$.\w]+))|("(?:[^"])*")|(!\w+|!\d+)|(#\d+)'
    r"|(0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|[][(){}<>,=*:!]))")


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("token at %r" % s[i:i + 40])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "line", "scope", "fn", "uid", "flags")

    def __init__(self, op, res):
        self.op, self.res = op, res
        self.ty = self.a = self.x = self.line = self.scope = self.fn = None
        self.flags = ()


class Block:
    __slots__ = ("name", "ins", "phis", "succ", "idx")

    def __init__(self, name):
        self.name = name
        self.ins, self.phis, self.succ = [], [], []


class Function:
    def __init__(self, name):
        self.name = name
        self.dem = name
        self.args, self.argtys, self.blocks, self.order = [], [], {}, []
        self.sret = None
        self.scope = None
        self.file = None
        self.line = 0


class Global:
    __slots__ = ("name", "ty", "init", "const", "ext", "tls")


# operands: ('r', name) register, ('c', python value) , ('f', float),
# ('g', name, off), ('z',) zero, ('u',) undef/poison, ('agg', [...])
class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls, self.meta = {}, {}, {}, set(), {}


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext",
               "returned", "immarg", "dead_on_unwind", "writable", "inreg", "nofree", "nest", "noext"}
PARAM_ATTRS_P = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range"}
LINKAGE = {"private", "internal", "linkonce_odr", "linkonce", "weak_odr", "weak", "external", "dso_local", "unnamed_addr",
           "local_unnamed_addr", "common", "appending", "extern_weak", "available_externally", "hidden", "protected",
           "dso_preemptable", "default", "fastcc", "ccc", "coldcc"}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError("expected %s at %s" % (x, self.t[max(0, self.i - 5):self.i + 8]))

    def type(self):
        x = self.next()
        if x == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            t = Ty("arr", n, e)
        elif x == "{":
            t = Ty("st", 0, self.tylist("}"))
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = Ty("st", 1, self.tylist("}"))
                self.need(">")
            else:
                n = int(self.next())
                self.need("x")
                e = self.type()
                self.need(">")
                t = Ty("vec", n, e)
        elif x[0] == "%":
            t = self.m.types.get(x)
            if t is None:
                t = self.m.types[x] = Ty("named")
        elif x[0] == "i" and x[1:].isdigit():
            t = Ty("i", int(x[1:]))
        elif x in ("double", "float", "ptr", "void", "label", "metadata", "x86_fp80", "token", "fp128", "half"):
            t = Ty(x)
        else:
            raise IRError("type %r in %s" % (x, self.t[:30]))
        if self.peek() == "(" and t.k in ("void", "i", "ptr", "double"):
            # function type as in  i32 (ptr, ...)
            save = self.i
            self.next()
            depth = 1
            while depth:
                y = self.next()
                depth += (y == "(") - (y == ")")
            if self.peek() and self.peek()[0] in "@%":
                return t
            self.i = save
        return t

    def tylist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.need(",")

    def skip_attrs(self):
        sret = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PARAM_ATTRS_P:
                self.next()
                if self.eat("("):
                    if x in ("sret", "byval"):
                        ty = self.type()
                        if x == "sret":
                            sret = ty
                        else:
                            raise IRError("byval")
                        self.need(")")
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            d += (y == "(") - (y == ")")
                else:
                    self.next()
            else:
                return sret

    def value(self, ty):
        x = self.next()
        if x[0] == "%":
            return ("r", x)
        if x[0] == "@":
            return ("g", x, 0)
        if ty.k == "double" and (x[0].isdigit() or x[0] == "-"):
            if x.startswith("0x"):
                return ("f", struct.unpack(">d", bytes.fromhex(x[2:].zfill(16)))[0])
            return ("f", float(x))
        if x[0].isdigit() or x[0] == "-":
            if ty.k == "x86_fp80":
                return ("u",)
            return ("c", int(x) & ((1 << ty.n) - 1))
        if x in ("true", "false"):
            return ("c", 1 if x == "true" else 0)
        if x == "null":
            return ("c", 0)
        if x in ("undef", "poison"):
            return ("u",)
        if x == "zeroinitializer":
            return ("z",)
        if x.startswith('c"'):
            s = x[2:-1]
            out = []
            j = 0
            while j < len(s):
                if s[j] == "\\":
                    out.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    out.append(ord(s[j]))
                    j += 1
            return ("agg", [("c", b) for b in out])
        if x in ("[", "{", "<"):
            if x == "<" and self.peek() == "{":
                self.next()
                r = self.agg("}")
                self.need(">")
                return r
            return self.agg({"[": "]", "{": "}", "<": ">"}[x])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.need("(")
            bt = self.type()
            self.need(",")
            pt = self.type()
            base = self.value(pt)
            off = 0
            first = True
            cur = bt
            while self.eat(","):
                self.eat("inrange")
                it = self.type()
                iv = self.value(it)
                if iv[0] != "c":
                    raise IRError("gep constexpr")
                v = iv[1]
                if v >> (it.n - 1):
                    v -= 1 << it.n
                if first:
                    off += v * layout(cur)[0]
                    first = False
                elif cur.k == "arr":
                    cur = cur.e
                    off += v * layout(cur)[0]
                else:
                    layout(cur)
                    off += cur.offs[v]
                    cur = cur.e[v]
            self.need(")")
            if base[0] != "g":
                raise IRError("gep base")
            return ("g", base[1], base[2] + off)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
            self.need("(")
            t1 = self.type()
            v = self.value(t1)
            self.need("to")
            self.type()
            self.need(")")
            return v
        raise IRError("value %r near %s" % (x, self.t[:40]))

    def agg(self, end):
        out = []
        if self.eat(end):
            return ("agg", out)
        while True:
            t = self.type()
            out.append(self.value(t))
            if self.eat(end):
                return ("agg", out)
            self.need(",")

    def tv(self):
        t = self.type()
        sret = self.skip_attrs()
        return t, self.value(t)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub",
          "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "bitcast", "fpext",
         "fptrunc"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


def parse(path):
    m = Module()
    text = open(path, encoding="utf-8", errors="replace").read().split("\n")
    uid = 0
    # types first (they may be referenced before their definition)
    for ln in text:
        if ln.startswith("%") and " = type " in ln:
            nm = tokenize(ln.split(" = ", 1)[0])[0]
            m.types.setdefault(nm, Ty("named"))
    for ln in text:
        if ln.startswith("%") and " = type " in ln:
            lhs, rhs = ln.split(" = type ", 1)
            nm = tokenize(lhs)[0]
            if rhs.strip() == "opaque":
                continue
            t = P(m, tokenize(rhs)).type()
            d = m.types[nm]
            d.k, d.n, d.e = t.k, t.n, t.e
    fn = None
    blk = None
    i = 0
    n = len(text)
    while i < n:
        ln = text[i]
        i += 1
        if fn is None:
            if ln.startswith("@"):
                parse_global(m, ln)
            elif ln.startswith("define "):
                fn = parse_define(m, ln)
                blk = None
            elif ln.startswith("declare "):
                mm = re.search(r'(@(?:"[^"]*"|[-$.\w]+))\(', ln)
                m.decls.add(mm.group(1))
            elif ln.startswith("!"):
                mm = re.match(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$", ln)
                if mm:
                    m.meta[int(mm.group(1))] = (mm.group(2), mm.group(3))
            continue
        if ln == "}":
            finish(fn)
            m.funcs[fn.name] = fn
            fn = None
            continue
        if not ln.strip():
            continue
        mm = re.match(r'^([-$.\w]+|"[^"]*"):', ln)
        if mm:
            blk = Block("%" + mm.group(1))
            fn.blocks[blk.name] = blk
            continue
        if blk is None:
            blk = Block("%" + str(len(fn.args)) if fn.entry_name is None else fn.entry_name)
            fn.blocks[blk.name] = blk
        s = ln.strip()
        if s.startswith("switch ") and not s.rstrip().endswith("]"):
            while "]" not in text[i - 1] or text[i - 1].strip() == s and "]" not in s:
                s += " " + text[i].strip()
                i += 1
                if "]" in s:
                    break
        if s.startswith(";"):
            continue
        ins = parse_instr(m, s)
        if ins is None:
            continue
        uid += 1
        ins.uid = uid
        ins.fn = fn
        (blk.phis if ins.op == "phi" else blk.ins).append(ins)
    demangle(m)
    scopes(m)
    return m


def parse_global(m, ln):
    mm = re.match(r'^(@(?:"[^"]*"|[-$.\w]+)) = (.*)$', ln)
    g = Global()
    g.name = mm.group(1)
    rest = mm.group(2)
    p = P(m, tokenize(rest))
    g.const = g.ext = g.tls = False
    g.init = None
    while True:
        x = p.peek()
        if x in LINKAGE:
            if x in ("external", "extern_weak"):
                g.ext = True
            p.next()
        elif x == "thread_local":
            g.tls = True
            p.next()
        elif x == "constant":
            g.const = True
            p.next()
            break
        elif x == "global":
            p.next()
            break
        elif x in ("alias", "ifunc"):
            return
        elif x == "comdat":
            p.next()
        else:
            raise IRError("global " + ln[:120])
    g.ty = p.type()
    if not g.ext and p.peek() not in (None, ","):
        g.init = p.value(g.ty)
    m.globals[g.name] = g


def parse_define(m, ln):
    mm = re.search(r'(@(?:"[^"]*"|[-$.\w]+))\(', ln)
    f = Function(mm.group(1))
    head = ln[:mm.start()]
    f.internal = " internal " in head
    p = P(m, tokenize(ln[mm.end():]))
    hp = P(m, tokenize(head[len("define "):]))
    while hp.peek() in LINKAGE or hp.peek() in PARAM_ATTRS or hp.peek() in PARAM_ATTRS_P:
        if hp.peek() in LINKAGE:
            hp.next()
        else:
            hp.skip_attrs()
    f.ret = hp.type()
    if not p.eat(")"):
        while True:
            if p.eat("..."):
                p.need(")")
                break
            t = p.type()
            sret = p.skip_attrs()
            if sret is not None:
                f.sret = (len(f.args), sret)
            nm = p.next()
            f.args.append(nm)
            f.argtys.append(t)
            if p.eat(")"):
                break
            p.need(",")
    mm = re.search(r"!dbg !(\d+)", ln)
    f.scope = int(mm.group(1)) if mm else None
    f.entry_name = None
    return f


DBG = re.compile(r", !dbg !(\d+)")


def parse_instr(m, s):
    dbg = None
    mm = DBG.search(s)
    if mm:
        dbg = int(mm.group(1))
        s = s[:mm.start()]
    mm = re.match(r'^(%(?:"[^"]*"|[-$.\w]+)) = (.*)$', s)
    res = None
    if mm:
        res, s = mm.group(1), mm.group(2)
    s = re.sub(r", ![\w.]+ !\d+", "", s)
    p = P(m, tokenize(s))
    op = p.next()
    if op in ("tail", "notail", "musttail"):
        op = p.next()
    ins = Instr(op, res)
    ins.scope = dbg
    if op in BINOPS:
        fl = []
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF:
            fl.append(p.next())
        ins.flags = tuple(fl)
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.need(",")
        ins.a = (a, p.value(ins.ty))
    elif op == "fneg":
        while p.peek() in FMF:
            p.next()
        ins.ty = p.type()
        ins.a = (p.value(ins.ty),)
    elif op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.need("to")
        ins.ty = p.type()
        ins.x = t
        ins.a = (v,)
    elif op in ("icmp", "fcmp"):
        while p.peek() in FMF or p.peek() == "samesign":
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.need(",")
        ins.x = (pred, t)
        ins.ty = Ty("i", 1)
        ins.a = (a, p.value(t))
    elif op == "load":
        p.eat("atomic")
        if p.eat("volatile"):
            ins.flags = ("volatile",)
        ins.ty = p.type()
        p.need(",")
        t, v = p.tv()
        ins.a = (v,)
    elif op == "store":
        p.eat("atomic")
        p.eat("volatile")
        t, v = p.tv()
        p.need(",")
        t2, v2 = p.tv()
        ins.ty = t
        ins.a = (v, v2)
    elif op == "alloca":
        ins.ty = p.type()
        ins.x = 1
        if p.eat(","):
            if p.peek() != "align":
                t, v = p.tv()
                ins.x = v
    elif op == "getelementptr":
        fl = []
        while p.peek() in ("inbounds", "nuw", "nusw"):
            fl.append(p.next())
        ins.flags = tuple(fl)
        bt = p.type()
        p.need(",")
        t, base = p.tv()
        # compile into base + const + sum(idx*scale)
        const = 0
        terms = []
        cur = bt
        first = True
        while p.eat(","):
            it, iv = p.tv()
            if first:
                sc = layout(cur)[0]
                first = False
            elif cur.k in ("arr", "vec"):
                cur = cur.e
                sc = layout(cur)[0]
            else:
                layout(cur)
                const += cur.offs[iv[1]]
                cur = cur.e[iv[1]]
                continue
            if iv[0] == "c":
                v = iv[1]
                if v >> (it.n - 1):
                    v -= 1 << it.n
                const += v * sc
            else:
                terms.append((iv, sc, it.n))
        ins.a = (base,)
        ins.x = (const, terms)
        ins.ty = Ty("ptr")
    elif op == "phi":
        ins.ty = p.type()
        inc = {}
        while True:
            p.need("[")
            v = p.value(ins.ty)
            p.need(",")
            b = p.next()
            p.need("]")
            inc[b] = v
            if not p.eat(","):
                break
        ins.x = inc
    elif op == "br":
        if p.peek() == "label":
            p.next()
            ins.x = (p.next(),)
            ins.a = ()
        else:
            t, v = p.tv()
            p.need(",")
            p.need("label")
            b1 = p.next()
            p.need(",")
            p.need("label")
            b2 = p.next()
            ins.a = (v,)
            ins.x = (b1, b2)
    elif op == "switch":
        t, v = p.tv()
        p.need(",")
        p.need("label")
        d = p.next()
        p.need("[")
        cases = []
        while not p.eat("]"):
            ct, cv = p.tv()
            p.need(",")
            p.need("label")
            cases.append((cv[1], p.next()))
        ins.ty = t
        ins.a = (v,)
        ins.x = (d, cases)
    elif op == "ret":
        if p.peek() == "void":
            ins.a = ()
        else:
            t, v = p.tv()
            ins.ty = t
            ins.a = (v,)
    elif op == "unreachable":
        ins.a = ()
    elif op == "select":
        while p.peek() in FMF:
            p.next()
        t, c = p.tv()
        p.need(",")
        t1, a = p.tv()
        p.need(",")
        t2, b = p.tv()
        ins.ty = t1
        ins.a = (c, a, b)
    elif op == "extractvalue":
        t, v = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        ins.a = (v,)
        ins.x = idx
        for k in idx:
            t = t.e[k] if t.k == "st" else t.e
        ins.ty = t
    elif op == "insertvalue":
        t, v = p.tv()
        p.need(",")
        t2, v2 = p.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        ins.ty = t
        ins.a = (v, v2)
        ins.x = idx
    elif op == "call":
        while p.peek() in FMF or p.peek() in LINKAGE:
            p.next()
        p.skip_attrs()
        ins.ty = p.type()
        callee = p.next()
        args = []
        tys = []
        p.need("(")
        if callee.startswith("@llvm.dbg") or callee.startswith("@llvm.lifetime") or callee.startswith("@llvm.experimental.noalias"):
            return None
        if not p.eat(")"):
            while True:
                if p.peek() == "metadata":
                    return None
                t, v = p.tv()
                args.append(v)
                tys.append(t)
                if p.eat(")"):
                    break
                p.need(",")
        ins.x = callee
        ins.a = tuple(args)
        ins.flags = tuple(tys)
    elif op in ("atomicrmw", "cmpxchg"):
        p.eat("weak")
        p.eat("volatile")
        if op == "atomicrmw":
            p.next()
        t2, v2 = p.tv()
        p.need(",")
        t, v = p.tv()
        vs = [v]
        if op == "cmpxchg":
            p.need(",")
            vs.append(p.tv()[1])
        ins.ty = t
        ins.a = (v2,) + tuple(vs)
    elif op == "fence":
        return None
    elif op == "freeze":
        t, v = p.tv()
        ins.ty = t
        ins.a = (v,)
    else:
        raise IRError("instruction: " + s)
    return ins


def finish(fn):
    names = list(fn.blocks)
    # the entry block label is implicit: fix its name from phi/br references
    fn.entry = names[0]
    for k, b in enumerate(fn.blocks.values()):
        b.idx = k
        t = b.ins[-1]
        if t.op == "br":
            b.succ = list(dict.fromkeys(t.x))
        elif t.op == "switch":
            b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
    # entry label used in phis
    used = set()
    for b in fn.blocks.values():
        for ph in b.phis:
            used |= set(ph.x)
    miss = [u for u in used if u not in fn.blocks]
    if miss:
        if len(miss) > 1:
            raise IRError("entry label")
        b = fn.blocks[fn.entry]
        d = {miss[0]: b}
        for k, v in list(fn.blocks.items())[1:]:
            d[k] = v
        b.name = miss[0]
        fn.blocks = d
        fn.entry = miss[0]


def demangle(m):
    names = [n.strip('@').strip('"') for n in list(m.funcs) + list(m.decls)]
    raw = []
    for n in names:
        raw.append(re.sub(r"\\([0-9A-Fa-f]{2})", lambda k: "\\x" + k.group(1), n))
    byt = [re.sub(rb"\\x([0-9A-Fa-f]{2})", lambda k: bytes([int(k.group(1), 16)]), r.encode()) for r in raw]
    out = subprocess.run(["llvm-cxxfilt-18"] if False else ["c++filt"], input=b"\n".join(byt), stdout=subprocess.PIPE).stdout
    out = out.decode("utf-8", "replace").split("\n")
    m.dem = {}
    for n, d in zip(list(m.funcs) + list(m.decls), out):
        m.dem[n] = d
        if n in m.funcs:
            m.funcs[n].dem = d


def scopes(m):
    """attach file:line to instructions and functions"""
    files = {}
    for k, (kind, body) in m.meta.items():
        if kind == "DIFile":
            mm = re.search(r'filename: "([^"]*)"', body)
            files[k] = mm.group(1) if mm else "?"
    info = {}

    def loc(sid, depth=0):
        if sid in info:
            return info[sid]
        if sid not in m.meta or depth > 60:
            return ("?", 0)
        kind, body = m.meta[sid]
        r = ("?", 0)
        fm = re.search(r"file: !(\d+)", body)
        lm = re.search(r"line: (\d+)", body)
        if kind == "DILocation":
            sm = re.search(r"scope: !(\d+)", body)
            f = loc(int(sm.group(1)), depth + 1)[0] if sm else "?"
            r = (f, int(lm.group(1)) if lm else 0)
        elif fm:
            r = (files.get(int(fm.group(1)), "?"), int(lm.group(1)) if lm else 0)
        else:
            sm = re.search(r"scope: !(\d+)", body)
            if sm:
                r = loc(int(sm.group(1)), depth + 1)
        info[sid] = r
        return r

    m.loc = loc
    for f in m.funcs.values():
        if f.scope is not None:
            f.file, f.line = loc(f.scope)
