"""Denotation of abstract values in a Structure, and comparison of values of two runs."""
from decimal import Decimal
from fractions import Fraction
from . import term as T
from .term import ONE, ZERO
from .values import *
import re
from .evalt import Structure, Undef, Opaque, veq, canon, rnd

MISS = "·"          # a missing vote / NaN
UND = "undef"


class Strk:
    """a string / arbitrary constant inside a denotation"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NAMES = {}


def strcode(x):
    """strings denote numbers, as symbolic strings do"""
    n = 100000 + int(rnd("str", x) * 1e9)
    NAMES[str(n)] = x
    return n


def named(text):
    """a printed denotation with the strings put back"""
    return re.sub(r"\b\d{6,10}\b", lambda m: NAMES.get(m.group(0), m.group(0)), text)


def fl(x):
    return tuple(fl(y) for y in x) if isinstance(x, tuple) else float(x) if isinstance(x, (Decimal, Fraction)) else x


def numdef(S, val, miss, env):
    try:
        if miss is not ZERO and S.ev(miss, env) != 0:
            return MISS
        x = S.ev(val, env)
    except Undef:
        return UND
    return float(x) if isinstance(x, (Decimal, Fraction)) else fl(x) if isinstance(x, tuple) else x


def den(c, st, v, S, env=None, depth=0):
    """nested python structure denoted by v"""
    try:
        return den_(c, st, v, S, env, depth)
    except Undef:
        return UND


def den_(c, st, v, S, env=None, depth=0):
    env = env or {}
    if depth > 12:
        raise Opaque("depth")
    if isinstance(v, K):
        x = v.v
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int,)):
            return x
        if isinstance(x, float):
            return MISS if x != x else x
        if isinstance(x, str):
            return strcode(x)
        if x is None:
            return None
        if isinstance(x, tuple):
            return [den(c, st, K(y), S, env, depth + 1) for y in x]
        return repr(x)
    if isinstance(v, N):
        return numdef(S, v.val, v.miss, env)
    if isinstance(v, PhiV):
        try:
            t = S.ev(v.c, env)
        except Undef:
            return UND
        return den(c, st, v.a if t else v.b, S, env, depth + 1)
    if isinstance(v, Tup):
        return [den(c, st, x, S, env, depth + 1) for x in v.items]
    if isinstance(v, SeqV):
        return den_segs(c, st, v.segs, S, env, depth)
    if isinstance(v, Opq):
        raise Opaque(str(v.tag))
    if isinstance(v, Ref):
        x = c.I.content(st, v)
        return den_content(c, st, x, S, env, depth)
    if isinstance(v, (Cls, Fn)):
        return repr(v)
    raise Opaque(type(v).__name__)


def den_content(c, st, x, S, env, depth):
    if isinstance(x, ArrC):
        return den_arr(x, S, env)
    if isinstance(x, ListC):
        r = den_segs(c, st, x.segs, S, env, depth)
        if x.kind == "set":
            return {"__set__": sorted(map(repr, map(canonv, r)))}
        return r
    if isinstance(x, DictC):
        out = {}
        if x.fun is not None:
            kv, has, val, keys = x.fun
            for k in den(c, st, keys, S, env, depth + 1):
                e2 = dict(env)
                e2[kv] = S.nrm(k)
                out[canon(k)] = den(c, st, val, S, e2, depth + 1)
        for e in x.ents:
            if isinstance(e, MuEnt):
                raise Opaque("mu entry")
            for e2 in S.points(e.vars, env):
                try:
                    g = S.ev(e.guard, e2)
                except Undef:
                    g = 0
                if g:
                    out[canonv(den(c, st, e.key, S, e2, depth + 1))] = den(c, st, e.val, S, e2, depth + 1)
        return out
    if isinstance(x, InstC):
        return {strcode(k): den(c, st, v, S, env, depth + 1) for k, v in x.attrs.items() if not k.startswith("__")}
    raise Opaque(type(x).__name__)


def canonv(v):
    if isinstance(v, (int, float)):
        return canon(v)
    if isinstance(v, list):
        return tuple(canonv(x) for x in v)
    return v


def den_segs(c, st, segs, S, env, depth):
    out = []
    for s in segs:
        if isinstance(s, MuSeg):
            raise Opaque("mu segment")
        for e2 in S.points(s.vars, env):
            try:
                g = S.ev(s.guard, e2)
            except Undef:
                out.append(UND)
                continue
            if g:
                out.append(den(c, st, s.val, S, dict(e2), depth + 1))
    return out


def den_arr(x, S, env):
    def rec(i, env):
        if i == len(x.dims):
            return numdef(S, x.val, x.miss, env)
        d = x.dims[i]
        out = []
        for e2 in S.points(d.vars, env):
            try:
                g = S.ev(d.guard, e2) if not (d.guard.free - set(e2)) else 1
            except Undef:
                g = 0
            if g:
                out.append(rec(i + 1, dict(e2)))
        return out
    return rec(0, dict(env))


def same_den(a, b, tol=1e-6):
    """equal denotations; undefined on either side is not a difference"""
    return diff_den(a, b, tol) is None


def diff_den(a, b, tol=1e-6, path=""):
    if a is UND or b is UND:
        return None
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            return (path, a, b)
        if len(a) != len(b):
            return (path + ".len", len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff_den(x, y, tol, "%s[%d]" % (path, i))
            if r is not None:
                return r
        return None
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return (path, a, b)
        if set(a) != set(b):
            return (path + ".keys", sorted(map(str, set(a) - set(b))), sorted(map(str, set(b) - set(a))))
        for k in a:
            r = diff_den(a[k], b[k], tol, "%s[%s]" % (path, k))
            if r is not None:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if veq(a, b, tol) else (path, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return None if veq(a, b, tol) else (path, a, b)
    return None if a == b else (path, a, b)


# ------------------------------------------------------------ normal forms

def nf_equal(c1, st1, v1, c2, st2, v2):
    """True when the two values have the same normal form (structural proof)"""
    I1, I2 = c1.I, c2.I
    if isinstance(v1, K) and isinstance(v2, K):
        return v1.v == v2.v
    if isinstance(v1, (K, N)) and isinstance(v2, (K, N)):
        a, b = I1.num(st1, v1), I2.num(st2, v2)
        return a is not None and b is not None and a[0] is b[0] and a[1] is b[1]
    a = I1.lib.arrc(st1, v1) if not isinstance(v1, (Opq,)) else None
    b = I2.lib.arrc(st2, v2) if not isinstance(v2, (Opq,)) else None
    if a is None or b is None or len(a.dims) != len(b.dims):
        return False
    u = I1.unify_dims(a, b)
    if u is None:
        return False
    return u[0].val is u[1].val and u[0].miss is u[1].miss
