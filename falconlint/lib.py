"""Shared set-up of the checks."""
import os
import pickle
import re
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import build_ir
import dom as D
import interp as IN
import ir
import models as MO
import real as RL
from dom import T
from interp import Interp, Obj, Ptr, PIte, Opq, State, Stop, UNDEF
from real import R, LV

Q = 12289
_MOD = {}


class Anchor(Exception):
    """something the rule is anchored at is no longer there"""


def module(extra=(), source=None, tag="unit"):
    key = (tuple(extra), source)
    if key not in _MOD:
        d = tempfile.mkdtemp(prefix="falconlint.")
        try:
            _MOD[key] = ir.parse(build_ir.build(d, source, tag, extra))
        finally:
            shutil.rmtree(d)
    return _MOD[key]


def fresh_domains():
    D.reset()
    RL.reset()
    MO.reset()
    IN.OBJS.clear()


def interp(mod):
    I = Interp(mod)
    MO.install(I)
    return I


def func(mod, pat, n=1):
    """the function whose demangled name matches"""
    rx = re.compile(pat)
    r = [f for f in mod.funcs.values() if rx.search(f.dem) and "lambda" not in f.dem]
    if len(r) != n:
        raise Anchor("%d functions match /%s/, expected %d" % (len(r), pat, n))
    return r[0] if n == 1 else r


def ptr_target(mod, gname):
    """function a fl_* pointer of the analysis unit refers to"""
    g = mod.globals.get("@" + gname)
    if g is None or g.init is None:
        raise Anchor("no " + gname)
    v = g.init
    if v[0] == "agg":
        v = v[1][0]
    if v[0] != "g" or v[1] not in mod.funcs:
        raise Anchor("no function behind " + gname)
    return mod.funcs[v[1]]


# input objects ------------------------------------------------------------
def bytes_in(name, n, kind="cinput"):
    def gen(off, size):
        if size == 1:
            return D.inbits((name, off), 8, 8)
        return None
    return Obj(name, n, kind, gen, 1)


def words_in(name, n, w, lo=None, hi=None, signed=True, kind="cinput", bits=None):
    """array of n w-bit integers with an interval; bits=k: exactly the k-bit ones"""
    sz = w // 8

    def gen(off, size):
        if size == sz and off % sz == 0:
            i = off // sz
            if bits is not None:
                return D.inbits((name, i), bits, w, signed)
            if lo is None:
                return D.atom("%s[%d]" % (name, i), w)
            if signed:
                return D.atom("%s[%d]" % (name, i), w, slo=lo, shi=hi)
            return D.atom("%s[%d]" % (name, i), w, ulo=lo, uhi=hi)
        return None
    return Obj(name, n * sz, kind, gen, sz)


def ffs_in(name, n, kind="cinput"):
    return words_in(name, n, 16, 0, Q - 1, False, kind)


def cplx_in(name, n, kind="cinput"):
    def gen(off, size):
        if size == 8 and off % 8 == 0:
            return RL.var("%s[%d].%s" % (name, off // 16, "im" if off % 16 else "re"))
        return None
    return Obj(name, 16 * n, kind, gen, 8)


def out(name, n):
    return Obj(name, n, "alloca")


def P(o, off=0):
    return Ptr(o, off)


def read(I, st, o, off, w):
    return I.read(st, o, off, w // 8, ir.Ty("i", w))


def readd(I, st, o, off):
    return I.read(st, o, off, 8, ir.Ty("double"))
