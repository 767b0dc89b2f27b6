"""One check = one property.  A Ctx collects the obligations a rule generated
from the source, and which of them failed."""
import json
import os
import sys
import time

import build_ir
import dom as D
import interp as IN
import lib
import real as RL
from dom import T
from real import R, LV

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Undecided(Exception):
    """the analysis could neither discharge nor refute an obligation"""


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.n = self.ok = 0
        self.rules = {}
        self.viol = []
        self.und = []
        self.funcs = {}
        self.notes = []
        self.samples = []
        self.loops = [0, 0]
        self.obl = {}
        self.assume = []

    def log(self, *a):
        print(*a, flush=True)

    # ------------------------------------------------------------ recording
    def need(self, rule, ok, where, msg, und=False):
        """one obligation of a rule; msg is a string or callable"""
        self.n += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.ok += 1
            r[1] += 1
            if len(self.samples) < 6 and r[0] == 1:
                self.samples.append("%s: %s" % (rule, where))
            return True
        text = msg() if callable(msg) else msg
        (self.und if und else self.viol).append((rule, where, text))
        return False

    def minimum(self, rule, k):
        """a rule that matched fewer instances than were confirmed by hand is broken"""
        if self.viol or self.und:
            return
        got = self.rules.get(rule, [0, 0])[0]
        if got < k:
            raise lib.Anchor("rule %r found %d instances, at least %d are known" % (rule, got, k))

    def took(self, I, label=""):
        """account for what an abstract interpretation covered"""
        for f, k in I.visited.items():
            self.funcs[I.m.funcs[f].dem] = self.funcs.get(I.m.funcs[f].dem, 0) + k
        self.loops[0] += I.unrolled
        self.loops[1] += I.generic

    def obligations(self, I, kinds, rule=None):
        """the interpreter's own obligations (bounds, overflow, ...) of some kinds"""
        for (k, _), (n, bad, ins, fn) in I.obl.items():
            if k not in kinds:
                continue
            where = "%s in %s" % (I.where(ins), short(fn))
            self.need(rule or k, not bad, where, lambda: "%s [%s]" % (bad[0][0], bad[0][1]))

    def absorb(self, part):
        n, ok, rules, viol, und, funcs, loops, samples, assume = part
        self.n += n
        self.ok += ok
        for k, (a, b) in rules.items():
            r = self.rules.setdefault(k, [0, 0])
            r[0] += a
            r[1] += b
        self.viol += viol
        self.und += und
        for k, a in funcs.items():
            self.funcs[k] = self.funcs.get(k, 0) + a
        self.loops = [self.loops[0] + loops[0], self.loops[1] + loops[1]]
        self.samples = (self.samples + samples)[:6]
        self.assume += [x for x in assume if x not in self.assume]

    def fork(self, jobs, width=8):
        """run jobs (callables taking a Ctx) in forked processes and merge what they recorded"""
        import pickle
        import traceback
        todo, run = list(jobs), {}
        errs = []
        while todo or run:
            while todo and len(run) < width:
                j = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    c = Ctx(self.prop, self.tier)
                    try:
                        j(c)
                        res = ("ok", (c.n, c.ok, c.rules, c.viol, c.und, c.funcs, c.loops, c.samples, c.assume))
                    except (lib.Anchor, IN.Stop) as e:
                        res = ("err", (type(e).__name__, str(e), (c.n, c.ok, c.rules, c.viol, c.und, c.funcs, c.loops, c.samples, c.assume)))
                    except BaseException:
                        res = ("err", ("crash", traceback.format_exc(), None))
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(res))
                    os._exit(0)
                os.close(w)
                run[pid] = r
            if len(run) >= width or not todo:
                # read the pipe before waiting, or a large result blocks the writer
                import select
                rd, _, _ = select.select(list(run.values()), [], [])
                for rf in rd:
                    pid = next(p for p, x in run.items() if x == rf)
                    with os.fdopen(rf, "rb") as f:
                        data = f.read()
                    os.waitpid(pid, 0)
                    del run[pid]
                    kind, v = pickle.loads(data) if data else ("err", ("crash", "an analysis process died", None))
                    part = v if kind == "ok" else v[2]
                    if part:
                        self.absorb(part)
                    if kind != "ok":
                        errs.append(v)
        for t, msg, _ in errs:
            if t == "Anchor":
                raise lib.Anchor(msg)
            if t == "Stop":
                raise IN.Stop(msg)
            raise RuntimeError(msg)

    # -------------------------------------------------------------- verdict
    def finish(self, level, explain, trusted, technique):
        wall = round(time.time() - self.t0, 2)
        seen = set()
        vs = []
        for v in self.viol:
            if v not in seen:
                seen.add(v)
                vs.append(v)
        cov = {
            "obligations": self.n,
            "discharged": self.ok,
            "checker_cmd": "python3-vt falconlint/run.py %s %s" % (self.prop, self.tier),
            "trusted_base": trusted,
            "rules": {k: {"instances": a, "discharged": b} for k, (a, b) in self.rules.items()},
            "functions_analysed": sorted(short(f) for f in self.funcs)[:400],
            "function_activations": sum(self.funcs.values()),
            "loops_followed_exactly": self.loops[0],
            "loops_generalised": self.loops[1],
            "samples": self.samples,
            "explanation": explain,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
              "assumptions": self.assume, "wall_s": wall, "violations": len(vs)}
        d = os.environ.get("FALCON_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("%s (%s): %d obligations, %d discharged, %d functions, %.1fs" % (self.prop, technique, self.n, self.ok, len(self.funcs), wall))
        for k, (a, b) in self.rules.items():
            self.log("   %-58s %d/%d" % (k, b, a))
        if vs:
            rp = os.path.join(d, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for rule, where, text in vs[:200]:
                    f.write("rule: %s\n  at: %s\n  %s\n" % (rule, where, text))
            for rule, where, text in vs[:8]:
                self.log("  BROKEN %s\n    at %s\n    %s" % (rule, where, text))
            self.log("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.und:
            for rule, where, text in self.und[:8]:
                self.log("  UNDECIDED %s\n    at %s\n    %s" % (rule, where, text))
            return 2
        return 0


def short(fn):
    return fn.split("(")[0].replace("unsigned long", "")[:90]


def fwhere(I, f, mod=None):
    """file:line of a function"""
    if mod is not None:
        for b in f.blocks.values():
            for ins in b.ins:
                if ins.scope is not None:
                    p, l = mod.loc(ins.scope)
                    return "%s:%d in %s" % (p.replace("/repo/", ""), l, short(f.dem))
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.scope is not None:
                return "%s in %s" % (I.where(ins), short(f.dem))
    return short(f.dem)


# --------------------------------------------------- comparing integer values
class Noval(Exception):
    pass


def srcval(name, w, trial):
    """deterministic test value of an input"""
    M = (1 << w) - 1
    if trial == 0:
        return 0
    if trial == 1:
        return M
    if trial == 2:
        return 1
    h = hash((str(name), trial * 7919)) & 0xFFFFFFFFFFFFFFFF
    import zlib
    h = zlib.crc32(("%s/%d" % (name, trial)).encode()) * 0x9E3779B97F4A7C15 >> 7
    if trial % 3 == 0:
        return 1 << (h % w)
    return h & M


FORCE = {}
FREE = set()    # names of values that a check leaves open and may choose


def bitval(src, k, trial):
    if FORCE and (src, k) in FORCE:
        return FORCE[(src, k)]
    if trial < 4:
        return srcval(src, 64, trial) >> k & 1
    if trial % 3 == 0:
        return srcval(src, 64, trial) >> ((k * 17) % 64) & 1
    if trial % 3 == 1:
        # small odd values
        return 1 if k == 0 else 0 if k >= 13 else srcval(src, 64, trial) >> k & 1
    return srcval(src, 64, trial) >> k & 1


def ev(t, trial, memo):
    """constant-fold a value-graph node with its inputs replaced by constants"""
    if type(t) is not T:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    w = t.w
    M = (1 << w) - 1
    a = t.args
    op = t.op

    def s(x, wx):
        x &= (1 << wx) - 1
        return x - (1 << wx) if x >> (wx - 1) else x

    if op == "atom":
        if "~" in str(a[0]) and not (a[0] in FORCE and str(a[0]).split("~")[0] in FREE):
            raise Noval(t)
        r = FORCE[a[0]] if FORCE and a[0] in FORCE else srcval(a[0], w, trial)
        if not (t.ulo <= r <= t.uhi and t.slo <= s(r, w) <= t.shi):
            if t.slo < 0 and t.slo > -(1 << (w - 1)):
                r = (t.slo + r % (t.shi - t.slo + 1)) & M
            else:
                r = t.ulo + r % (t.uhi - t.ulo + 1)
    elif op == "bits":
        r = 0
        for i, b in enumerate(a):
            if b < 2:
                v = b
            else:
                src, k = D.LITN[(b >> 1) - 1]
                if isinstance(src, T):
                    v = ev(src, trial, memo) >> k & 1
                else:
                    v = bitval(src, k, trial)
                v ^= b & 1
            r |= v << i
    elif op == "lin":
        r = a[0]
        for b, k in a[1]:
            r += k * ev(b, trial, memo)
    elif op == "ite":
        r = ev(a[1] if ev(a[0], trial, memo) else a[2], trial, memo)
    elif op == "band":
        r = 1
        for x in a[0]:
            if not ev(x, trial, memo):
                r = 0
                break
    elif op == "not":
        r = 1 - ev(a[0], trial, memo)
    elif op == "sext":
        r = s(ev(a[0], trial, memo), a[0].w)
    elif op in ("zext", "trunc"):
        r = ev(a[0], trial, memo)
    elif op in ("fromreal", "fq", "add2", "flt", "feq"):
        raise Noval(t)
    else:
        v = [ev(x, trial, memo) if type(x) is T else x for x in a]
        if any(type(x) is not int for x in v):
            raise Noval(t)
        wx = max([x.w for x in a if type(x) is T])
        if op == "mul":
            r = v[0] * v[1]
        elif op == "shl":
            r = v[0] << v[1] if v[1] < wx else 0
        elif op == "lshr":
            r = v[0] >> v[1] if v[1] < wx else 0
        elif op == "ashr":
            r = s(v[0], wx) >> min(v[1], wx - 1)
        elif op == "and":
            r = v[0] & v[1]
        elif op == "or":
            r = v[0] | v[1]
        elif op in ("xor", "bxor"):
            r = v[0] ^ v[1]
        elif op == "ult":
            r = int(v[0] < v[1])
        elif op == "slt":
            r = int(s(v[0], wx) < s(v[1], wx))
        elif op == "eq":
            r = int(v[0] == v[1])
        elif op == "abs":
            r = abs(s(v[0], wx))
        elif op == "ctlz":
            r = wx - v[0].bit_length()
        elif op == "cttz":
            r = (v[0] & -v[0]).bit_length() - 1 if v[0] else wx
        elif op in ("udiv", "urem"):
            if v[1] == 0:
                raise Noval(t)
            r = v[0] // v[1] if op == "udiv" else v[0] % v[1]
        elif op in ("sdiv", "srem"):
            x, y = s(v[0], wx), s(v[1], wx)
            if y == 0:
                raise Noval(t)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = q if op == "sdiv" else x - q * y
        else:
            raise Noval(t)
    r &= M
    memo[t] = r
    return r


_TRIALS = {}


def at_points(points, terms, spec):
    """first point (atom name -> value) at which constant folding gives other values than spec"""
    for pt in points:
        FORCE.update(pt)
        try:
            memo = {}
            got = [ev(t, 5, memo) for t in terms]
        except (Noval, RecursionError):
            return None
        finally:
            FORCE.clear()
        want = spec(pt)
        if got != list(want):
            return pt, got, list(want)
    return None


def literals(c, val, out):
    """input bits and atoms a truth value of a condition fixes"""
    if type(c) is not T or len(out) > 4000:
        return
    if c.op == "not":
        literals(c.args[0], not val, out)
    elif c.op == "bits" and c.w == 1 and c.args[0] > 1:
        x = c.args[0]
        src, k = D.LITN[(x >> 1) - 1]
        if not isinstance(src, T):
            out[(src, k)] = int(bool(val) != bool(x & 1))
    elif c.op == "atom" and c.w == 1:
        out[c.args[0]] = int(bool(val))
    elif c.op == "band" and val:
        for z in c.args[0]:
            literals(z, True, out)
    elif c.op == "eq" and val:
        a, b = c.args[0], c.args[1]
        if type(a) is int:
            a, b = b, a
        if type(a) is T and type(b) is int:
            if a.op == "atom":
                out[a.args[0]] = b
            elif a.op == "bits":
                for i, x in enumerate(a.args):
                    if x > 1 and not isinstance(D.LITN[(x >> 1) - 1][0], T):
                        out[D.LITN[(x >> 1) - 1]] = (b >> i & 1) ^ (x & 1)


def arms(t, n=6):
    """conditions that lead to the parts of a value"""
    r = []
    def walk(t, path):
        if len(r) >= n:
            return
        if type(t) is T and t.op == "ite":
            walk(t.args[1], path + [(t.args[0], True)])
            walk(t.args[2], path + [(t.args[0], False)])
        else:
            r.append(path)
    walk(t, [])
    return r


def differ(x, y, cond=(), trials=24):
    d = differ1(x, y, cond, trials)
    if d is not None:
        return d
    for t in (x, y):
        for path in arms(t):
            f = {}
            for c in cond:
                literals(c, True, f)
            for c, v in path:
                literals(c, v, f)
            if not f:
                continue
            FORCE.update(f)
            try:
                for k in range(8):
                    memo = {}
                    if not all(ev(c, k, memo) for c in cond):
                        continue
                    p, q = ev(x, k, memo), ev(y, k, memo)
                    if p != q:
                        return (k, p, q)
            except (Noval, RecursionError):
                pass
            finally:
                FORCE.clear()
    return None


def differ1(x, y, cond=(), trials=24):
    """a valuation (trial number) under which x and y differ while all of cond hold; None if
    none of a fixed few shows it"""
    cond = frozenset(cond)
    tr = _TRIALS.get(cond)
    if tr is None:
        _TRIALS.clear()
        tr = _TRIALS[cond] = []
        for k in range(trials):
            memo = {}
            try:
                if all(ev(c, k, memo) for c in cond):
                    tr.append((k, memo))
            except (Noval, RecursionError):
                pass
    for k, memo in tr:
        try:
            p, q = ev(x, k, memo), ev(y, k, memo)
            if p != q:
                return (k, p, q)
        except Noval:
            return None
        except RecursionError:
            return None
    return None


def same(ctx, rule, x, y, where, what, st=None, und=True):
    """obligation: x and y are the same value.  Different normal forms count as a violation
    only if constant folding shows them apart; otherwise the obligation is left undecided."""
    if x is y or x == y:
        return ctx.need(rule, True, where, "")
    d = None
    if len(ctx.viol) > 40:
        return ctx.need(rule, False, where, what + " (and many more)", und=True)
    if isinstance(x, (int, T)) and isinstance(y, (int, T)):
        d = differ(x, y, st.pc if st is not None else ())
    elif (x is IN.UNDEF) != (y is IN.UNDEF):
        return ctx.need(rule, False, where, "%s: never written" % what)
    def msg():
        return "%s: is %s, must be %s%s" % (what, D.show(x, 2)[:300], D.show(y, 2)[:300], " (e.g. %#x instead of %#x)" % (d[1], d[2]) if d else "")
    return ctx.need(rule, False, where, msg, und=und and d is None)
