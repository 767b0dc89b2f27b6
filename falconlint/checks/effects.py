"""P21: no state is shared between calls; inputs are not written.

An inclusion-based points-to and mod analysis (flow- and field-insensitive) of
everything an entry point can reach, one entry point at a time."""
import re

from chk import *
from lib import *

# what an entry point may write: its arguments, by position
ROOTS = []
for N in (512, 1024):
    ROOTS += [
        ("falcon::keygen<%d>" % N, "fl_keygen_%d" % N, ("pkey", "skey"), {0, 1}),
        ("falcon::sign<%d> (encoded key)" % N, "fl_sign_one_%d" % N, ("skey", "msg", "mlen", "sig"), {3}),
        ("falcon::sign<%d> (basis and tree)" % N, "fl_sign_many_%d" % N, ("B", "T", "msg", "mlen", "sig", "rng"), {4, 5}),
        ("falcon::verify<%d>" % N, "fl_verify_%d" % N, ("pkey", "msg", "mlen", "sig"), set()),
        ("falcon::recompute_G<%d>" % N, "fl_recompute_G_%d" % N, ("f", "g", "F", "G"), {3}),
        ("falcon::compute_matrix_B<%d>" % N, "fl_compute_matrix_B_%d" % N, ("f", "g", "F", "G", "B"), {4}),
        ("falcon::compute_falcon_tree<%d>" % N, "fl_compute_falcon_tree_%d" % N, ("B", "T"), {1}),
        ("keygen::keygen<%d>" % N, "fl_keygen_tree_%d" % N, ("B", "T", "h", "sigma", "rng"), {0, 1, 2, 4}),
    ]

# library functions whose result or effect depends on state all callers share
SHARED = re.compile(r"^_?_?(s?rand(om)?|[delmjn]rand48|srand48|seed48|lcong48|setstate|initstate|strtok|setlocale|localtime|gmtime|ctime|asctime|tmpnam|getenv|setenv|putenv|time|clock|gettimeofday|clock_gettime|getpid|signal|raise|longjmp|setjmp)$")
CLOCK = re.compile(r"std::chrono::|std::this_thread|std::default_random|pthread_self|sched_getcpu")


def params_of(dem):
    """parameter types of a demangled signature, or None"""
    dem = re.sub(r" requires .*$", "", dem)
    if not dem or "(" not in dem:
        return None
    k = len(dem) - 1
    while k >= 0 and dem[k] != ")":
        k -= 1
    depth = 0
    e = k
    while k >= 0:
        if dem[k] == ")":
            depth += 1
        elif dem[k] == "(":
            depth -= 1
            if not depth:
                break
        k -= 1
    out, cur, d = [], "", 0
    for c in dem[k + 1:e]:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if x != "void"]


def const_this(dem):
    return bool(re.search(r"\) const\b", re.sub(r" requires .*$", "", dem)))


class Effects:
    def __init__(self, m, f):
        self.m, self.root = m, f
        self.pts = {}            # node -> set of objects
        self.succ = {}           # node -> nodes it flows into
        self.loads = {}          # pointer node -> result nodes
        self.stores = {}         # pointer node -> value nodes
        self.copies = {}         # pointer node -> pointer nodes its contents are copied into
        self.writes = {}         # object -> {(function, instruction)}
        self.wpend = {}          # pointer node -> [(function, instruction)]
        self.done = set()
        self.ext = {}            # external functions called -> one call
        self.indirect = []
        self.work = []
        self.funcs = []
        for i, a in enumerate(f.args):
            self.add(("r", f.name, a), ("arg", i))
        self.enter(f)
        self.solve()

    def add(self, n, o):
        s = self.pts.setdefault(n, set())
        if o not in s:
            s.add(o)
            self.work.append((n, o))

    def edge(self, a, b):
        if a is None or b is None or a == b:
            return
        s = self.succ.setdefault(a, set())
        if b not in s:
            s.add(b)
            for o in list(self.pts.get(a, ())):
                self.add(b, o)

    def node(self, f, v):
        """the node of an operand"""
        k = v[0]
        if k == "r":
            return ("r", f.name, v[1])
        if k == "g":
            n = ("c", v[1])
            if v[1] in self.m.globals or v[1] not in self.m.funcs:
                self.add(n, ("glob", v[1]))
            else:
                self.add(n, ("fun", v[1]))
            return n
        return None

    def load(self, p, r):
        if p is None:
            return
        self.loads.setdefault(p, []).append(r)
        for o in list(self.pts.get(p, ())):
            self.edge(("m", o), r)

    def store(self, p, v):
        if p is None or v is None:
            return
        self.stores.setdefault(p, []).append(v)
        for o in list(self.pts.get(p, ())):
            self.edge(v, ("m", o))

    def copy(self, d, s):
        """*d = *s"""
        if d is None or s is None:
            return
        t = ("t", d, s)
        self.load(s, t)
        self.store(d, t)

    def wrote(self, p, f, ins):
        if p is None:
            return
        self.wpend.setdefault(p, []).append((f, ins))
        for o in self.pts.get(p, ()):
            self.writes.setdefault(o, set()).add((f, ins))

    def written_through(self, n):
        """something is written through what flows out of node n"""
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.wpend or x in self.stores:
                return True
            todo += self.succ.get(x, ())
        return False

    def solve(self):
        while self.work:
            n, o = self.work.pop()
            for b in list(self.succ.get(n, ())):
                self.add(b, o)
            for r in self.loads.get(n, ()):
                self.edge(("m", o), r)
            for v in self.stores.get(n, ()):
                self.edge(v, ("m", o))
            for w in self.wpend.get(n, ()):
                self.writes.setdefault(o, set()).add(w)
            if o[0] == "fun":
                for f, ins in self.indirect:
                    if self.node(f, ("r", ins.x)) == n:
                        self.bind(f, ins, self.m.funcs[o[1]])

    def bind(self, f, ins, g):
        for a, v in zip(g.args, ins.a):
            self.edge(self.node(f, v), ("r", g.name, a))
        if ins.res:
            self.edge(("ret", g.name), ("r", f.name, ins.res))
        self.enter(g)

    def enter(self, f):
        if f.name in self.done:
            return
        self.done.add(f.name)
        self.funcs.append(f)
        for b in f.blocks.values():
            for ph in b.phis:
                for v in ph.x.values():
                    self.edge(self.node(f, v), ("r", f.name, ph.res))
            for ins in b.ins:
                self.instr(f, ins)

    def instr(self, f, ins):
        op = ins.op
        r = ("r", f.name, ins.res) if ins.res else None
        if op == "alloca":
            self.add(r, ("alloca", f.name, ins.res))
        elif op == "load":
            self.load(self.node(f, ins.a[0]), r)
        elif op == "store":
            p = self.node(f, ins.a[1])
            self.wrote(p, f, ins)
            self.store(p, self.node(f, ins.a[0]))
        elif op in ("atomicrmw", "cmpxchg"):
            p = self.node(f, ins.a[0])
            self.wrote(p, f, ins)
            self.load(p, r)
            for v in ins.a[1:]:
                self.store(p, self.node(f, v))
        elif op == "getelementptr":
            self.edge(self.node(f, ins.a[0]), r)
        elif op in ("phi",):
            for v in ins.x.values():
                self.edge(self.node(f, v), r)
        elif op == "ret":
            if ins.a:
                self.edge(self.node(f, ins.a[0]), ("ret", f.name))
        elif op == "call":
            self.call(f, ins, r)
        elif op in ("icmp", "fcmp", "br", "switch", "unreachable"):
            pass
        elif r is not None:
            for v in ins.a:
                self.edge(self.node(f, v), r)

    def call(self, f, ins, r):
        name = ins.x
        if name[0] == "%":
            self.indirect.append((f, ins))
            for o in list(self.pts.get(("r", f.name, name), ())):
                if o[0] == "fun":
                    self.bind(f, ins, self.m.funcs[o[1]])
            return
        if name in self.m.funcs:
            self.bind(f, ins, self.m.funcs[name])
            return
        n = name[1:].strip('"')
        a = [self.node(f, v) for v in ins.a]
        if re.match(r"llvm\.(memcpy|memmove)|^(memcpy|memmove)$", n):
            self.wrote(a[0], f, ins)
            self.copy(a[0], a[1])
            self.edge(a[0], r)
            return
        if re.match(r"llvm\.memset|^memset$", n):
            self.wrote(a[0], f, ins)
            self.edge(a[0], r)
            return
        if n.startswith("llvm.threadlocal.address"):
            self.edge(a[0], r)
            return
        if n.startswith("llvm.") or n.startswith("__cxa_guard_"):
            return
        self.ext.setdefault(name, (f, ins))
        if r is not None:
            self.add(r, ("heap", f.name, ins.res))
        dem = self.m.dem.get(n, self.m.dem.get(name, n))
        ps = params_of(dem)
        member = ps is not None and len(ps) == len(a) - 1
        for i, x in enumerate(a):
            if x is None or getattr(ins.flags[i], "k", "ptr") != "ptr":
                continue
            if ps is None:
                const = not n.startswith("fl_mpz_gcdext") and n not in ("frexp", "modf", "sincos", "remquo")
            elif member:
                const = const_this(dem) if i == 0 else is_const(ps[i - 1])
            elif i < len(ps):
                const = is_const(ps[i])
            else:
                const = False
            if not const:
                self.wrote(x, f, ins)


def is_const(t):
    return bool(re.search(r"\bconst\s*[*&]+\s*(const)?$", t)) or not t.endswith(("*", "&", "]"))


def tainted(f):
    """registers that may depend on the arguments of f or on what calls return"""
    t = set(f.args)
    objs = {}
    ch = True

    def of(v):
        return v[0] == "r" and v[1] in t
    base = {}

    def root(v):
        return base.get(v[1]) if v[0] == "r" else v[1] if v[0] == "g" else None
    while ch:
        ch = False
        for b in f.blocks.values():
            for ins in list(b.phis) + list(b.ins):
                if ins.op == "alloca":
                    base[ins.res] = ins.res
                    continue
                ops = ins.x.values() if ins.op == "phi" else ins.a or ()
                if ins.op == "getelementptr":
                    ops = list(ops) + [x[0] for x in ins.x[1]]
                    if root(ins.a[0]) is not None:
                        base[ins.res] = root(ins.a[0])
                hot = any(of(v) for v in ops)
                if ins.op == "load" and root(ins.a[0]) in objs:
                    hot = True
                if ins.op == "store" and of(ins.a[0]) and root(ins.a[1]) is not None and root(ins.a[1]) not in objs:
                    objs[root(ins.a[1])] = 1
                    ch = True
                if ins.op == "call" and not (ins.x.startswith("@llvm.") or ins.x.startswith("@__cxa_guard")):
                    hot = hot or any(root(v) in objs for v in ops)
                    if hot:
                        for v in ops:
                            if root(v) is not None and root(v) not in objs:
                                objs[root(v)] = 1
                                ch = True
                if hot and ins.res and ins.res not in t:
                    t.add(ins.res)
                    ch = True
    return t, objs, root


def guarded(f):
    """blocks that run once per program: name -> guard variable"""
    out = {}
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.op == "call" and ins.x == "@__cxa_guard_acquire":
                for i2 in b.ins:
                    if i2.op == "br" and len(i2.x) == 2:
                        # everything dominated by the successor that initialises
                        entry = i2.x[0]
                        reach = {b.name}
                        todo = [f.entry]
                        seen = set()
                        while todo:
                            x = todo.pop()
                            if x in seen or x == entry:
                                continue
                            seen.add(x)
                            todo += f.blocks[x].succ
                        todo = [entry]
                        while todo:
                            x = todo.pop()
                            if x in out or x in seen:
                                continue
                            out[x] = ins.a[0][1]
                            todo += f.blocks[x].succ
    return out


def once(e, name):
    """the variable is only written by its guarded initialisation, to a value that is the same for
    every call"""
    gv = "@_ZGV" + name[1:].strip('"').removeprefix("_Z")
    if name[1:2] == '"':
        gv = '@"' + gv[1:] + '"'
    f = None
    for g in e.funcs:
        for b in g.blocks.values():
            for i in b.ins:
                if i.op == "call" and i.x == "@__cxa_guard_acquire" and i.a[0][1] == gv:
                    f = g
    if f is None:
        return False
    gd = {b for b, v in guarded(f).items() if v == gv}
    t, objs, root = tainted(f)
    for b in f.blocks.values():
        for i in b.ins:
            ops = list(i.a or ())
            if b.name in gd:
                # one value for all calls
                if any(v[0] == "r" and v[1] in t or root(v) in objs for v in ops):
                    return False
                if i.op == "call" and re.search(r"random_device|shake256|prng_t", i.x):
                    return False
                continue
            if not any(root(v) == name for v in ops):
                continue
            # outside of it the variable is only looked at
            if i.op in ("load", "getelementptr", "icmp"):
                continue
            if i.op == "store" and root(i.a[1]) != name:
                return False
            if i.op != "call" or i.x not in e.m.funcs:
                return i.op == "call" and i.x.startswith("@llvm.memcpy") and root(i.a[0]) != name
            h = e.m.funcs[i.x]
            for k, v in enumerate(i.a):
                if root(v) == name and e.written_through(("r", h.name, h.args[k])):
                    return False
    # every other function only gets at it through the calls above
    for g in e.funcs:
        if g is not f and any(v[0] == "g" and v[1] == name for b in g.blocks.values() for i in b.ins for v in (i.a or ()) if type(v) is tuple):
            return False
    return True


def gname(m, g):
    import subprocess
    s = g[1:].strip('"')
    return subprocess.run(["c++filt", s], stdout=subprocess.PIPE).stdout.decode().strip()


def fromstd(m, g):
    x = m.globals.get(g)
    return g.startswith(("@_ZSt", "@_ZNSt", "@stdout", "@stderr", "@_ZTVN10__cxx", "@.str")) or x is not None and x.ext and not re.search(r"falcon|ntru_gen|signing|samplerz|prng|fft|ntt|ff_t", g)


def p21(ctx):
    m = module()
    ctx.assume = ["the C++ standard library, GMP and the SHAKE256 implementation keep no state of their own besides the system's random device"]
    for label, fl, names, mayw in ROOTS:
        f = ptr_target(m, fl)
        e = Effects(m, f)
        for g in e.funcs:
            ctx.funcs[g.name] = ctx.funcs.get(g.name, 0) + 1
        w0 = "%s: %s" % (label, fwhere(None, f, m))
        bad = {}
        for o, ws in e.writes.items():
            if o[0] == "glob" and not fromstd(m, o[1]):
                if not once(e, o[1]):
                    bad[o] = sorted(ws, key=lambda x: (x[0].name, x[1].line or 0))[0]
        gl = {o for s in e.pts.values() for o in s if o[0] == "glob"} | set(bad)
        for o in gl:
            ctx.need("no global, function-static or thread-local variable is written", o not in bad, w0 if o not in bad else at(m, *bad[o]),
                     lambda: "%s writes %s, which every call shares" % (label, gname(m, o[1])))
        for i, nm in enumerate(names):
            if i in mayw or f.argtys[i].k != "ptr":
                continue
            ws = e.writes.get(("arg", i))
            one = sorted(ws, key=lambda x: (x[0].name, x[1].line or 0))[0] if ws else None
            ctx.need("inputs are not written", not ws, at(m, *one) if one else w0, lambda: "%s writes its argument %s" % (label, nm))
        for i in mayw:
            ctx.need("outputs are written", bool(e.writes.get(("arg", i))), w0, lambda: "%s never writes its argument %s" % (label, names[i]))
        for x, (g, ins) in e.ext.items():
            n = x[1:].strip('"')
            dem = m.dem.get(n, m.dem.get(x, n))
            ctx.need("nothing depends on state of the process", not SHARED.match(n) and not CLOCK.search(dem), at(m, g, ins), lambda: "%s calls %s" % (label, dem))
    ctx.minimum("no global, function-static or thread-local variable is written", 30)
    ctx.minimum("inputs are not written", 20)
    ctx.minimum("outputs are written", 20)
    ctx.minimum("nothing depends on state of the process", 40)


def at(m, f, ins):
    try:
        fl, ln = m.loc(ins.scope)
    except Exception:
        fl, ln = f.file, f.line
    return "%s:%s in %s" % (fl[fl.rfind("include/"):] if "include/" in fl else fl, ln, short(f.name) if False else re.sub(r" requires .*", "", f.dem))
