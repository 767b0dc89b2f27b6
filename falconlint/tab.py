"""Exact tables of value-graph nodes over a finite set of input values: the transfer
functions of the bit-vector operations, applied to numpy vectors."""
import numpy as np

import dom as D
from dom import T

U = np.uint64
S = np.int64


class NoTable(Exception):
    pass


def signed(x, w):
    x = np.asarray(x, dtype=U)
    if w == 64:
        return x.astype(S)
    h = U(1 << (w - 1))
    return ((x ^ h) - h).astype(S)


def unsigned(v, w):
    v = np.asarray(v)
    if v.dtype != U:
        v = v.astype(S).astype(U)
    return v & U((1 << w) - 1)


def vec(t, env, memo=None):
    """values of t (unsigned view) where env maps leaves (nodes or bit sources) to value vectors"""
    if memo is None:
        memo = {}
    if type(t) is not T:
        if type(t) is not int:
            raise NoTable(repr(t))
        return U(t & ((1 << 64) - 1))
    r = memo.get(t)
    if r is not None:
        return r
    with np.errstate(over="ignore"):
        r = _vec(t, env, memo)
    memo[t] = r
    return r


def _vec(t, env, memo):
    w, op, a = t.w, t.op, t.args
    M = U((1 << w) - 1)
    if t in env:
        return unsigned(env[t], w)
    go = lambda x: vec(x, env, memo)
    if op == "atom":
        if a[0] in env:
            return unsigned(env[a[0]], w)
        raise NoTable(str(a[0]))
    if op == "bits":
        r = U(0)
        for i, b in enumerate(a):
            if b < 2:
                v = U(b)
            else:
                src, k = D.LITN[(b >> 1) - 1]
                if src in env:
                    x = np.asarray(env[src]).astype(S).astype(U)
                elif isinstance(src, T):
                    x = go(src)
                else:
                    raise NoTable(str(src))
                v = (x >> U(k)) & U(1)
                if b & 1:
                    v = v ^ U(1)
            r = r | (v << U(i))
        return r & M
    if op == "lin":
        r = U(a[0] & ((1 << 64) - 1))
        for b, k in a[1]:
            r = r + U(k & ((1 << 64) - 1)) * go(b)
        return r & M
    if op == "ite":
        c = go(a[0])
        return np.where(c != 0, go(a[1]), go(a[2]))
    if op == "band":
        r = U(1)
        for x in a[0]:
            r = r & go(x)
        return r
    if op == "not":
        return U(1) ^ go(a[0])
    if op == "sext":
        return unsigned(signed(go(a[0]), a[0].w), w)
    if op in ("zext", "trunc"):
        return go(a[0]) & M
    if op in ("fromreal", "fq", "add2", "flt", "feq"):
        raise NoTable(op)
    v = [go(x) for x in a]
    wx = max([x.w for x in a if type(x) is T])
    if op == "mul":
        r = v[0] * v[1]
    elif op in ("shl", "lshr", "ashr"):
        s = np.minimum(v[1], U(63))
        big = v[1] >= U(wx)
        if op == "shl":
            r = np.where(big, U(0), v[0] << s)
        elif op == "lshr":
            r = np.where(big, U(0), v[0] >> s)
        else:
            r = (signed(v[0], wx) >> np.minimum(s, U(wx - 1)).astype(S)).astype(U)
    elif op == "and":
        r = v[0] & v[1]
    elif op == "or":
        r = v[0] | v[1]
    elif op in ("xor", "bxor"):
        r = v[0] ^ v[1]
    elif op == "ult":
        r = (v[0] < v[1]).astype(U)
    elif op == "slt":
        r = (signed(v[0], wx) < signed(v[1], wx)).astype(U)
    elif op == "eq":
        r = (v[0] == v[1]).astype(U)
    elif op == "abs":
        r = np.abs(signed(v[0], wx)).astype(U)
    elif op in ("udiv", "urem"):
        if np.any(np.asarray(v[1]) == 0):
            raise NoTable("division by zero")
        r = v[0] // v[1] if op == "udiv" else v[0] % v[1]
    elif op in ("sdiv", "srem"):
        x, y = signed(v[0], wx), signed(v[1], wx)
        if np.any(y == 0):
            raise NoTable("division by zero")
        q = np.abs(x) // np.abs(y)
        q = np.where((x < 0) == (y < 0), q, -q)
        r = (q if op == "sdiv" else x - q * y).astype(U)
    elif op in ("ctlz", "cttz"):
        x = np.broadcast_to(np.asarray(v[0]), np.shape(v[0])).astype(object)
        f = (lambda z: wx - int(z).bit_length()) if op == "ctlz" else (lambda z: (int(z) & -int(z)).bit_length() - 1 if z else wx)
        r = np.vectorize(f, otypes=[U])(x)
    else:
        raise NoTable(op)
    return np.asarray(r).astype(U) & M


def leaves(t, out=None, seen=None):
    """atoms, bit sources and opaque nodes a node depends on"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
            continue
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op in ("atom", "fq", "fromreal", "flt", "feq"):
            out.add(x)
        elif x.op == "bits":
            for b in x.args:
                if b > 1:
                    s = D.LITN[(b >> 1) - 1][0]
                    if isinstance(s, T):
                        st.append(s)
                    else:
                        out.add(s)
        else:
            st.extend(x.args)
    return out
