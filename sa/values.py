"""Abstract values and heap contents of the interpreter."""
import itertools
from . import term as T
from .term import Poly, Var, ONE, ZERO


class Val:
    __slots__ = ()


class K(Val):
    """known Python constant"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "K(%r)" % (self.v,)


class N(Val):
    """symbolic scalar; val is meaningful where miss == 0"""
    __slots__ = ("val", "miss", "kind")

    def __init__(self, val, miss=ZERO, kind="num"):
        self.val = T.lift(val)
        self.miss = miss
        self.kind = kind

    def __repr__(self):
        return "N(%s%s:%s)" % (self.val, "" if self.miss is ZERO else " miss=%s" % self.miss, self.kind)


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class NTup(Tup):
    """a tuple with named fields"""
    __slots__ = ("names",)

    def __init__(self, items, names):
        super().__init__(items)
        self.names = names


class Ref(Val):
    __slots__ = ("loc", "sub")

    def __init__(self, loc, sub=None):
        self.loc = loc
        self.sub = sub or {}

    def __repr__(self):
        return "Ref(%s%s)" % (self.loc, "" if not self.sub else " " + str({repr(k): str(v) for k, v in self.sub.items()}))


class Fn(Val):
    __slots__ = ("node", "closure", "module", "cls", "name", "defaults", "kwdefaults")

    def __init__(self, node, closure, module, cls, name, defaults=(), kwdefaults=None):
        self.node, self.closure, self.module, self.cls, self.name = node, closure, module, cls, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return "Fn(%s)" % self.name


class Wrapped(Val):
    """decorated function: kind in static/class/property"""
    __slots__ = ("kind", "fn")

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Bound(Val):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return "Bound(%r)" % (self.fn,)


class Cls(Val):
    __slots__ = ("name", "bases", "ns", "module", "node", "_mro")

    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self._mro = None

    def __repr__(self):
        return "Cls(%s)" % self.name

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def lookup(self, name, after=None):
        skip = after is not None
        for c in self.mro():
            if skip:
                if c is after:
                    skip = False
                continue
            if isinstance(c, Cls) and name in c.ns:
                return c, c.ns[name]
        return None, None


def c3(cls):
    seqs = []
    for b in cls.bases:
        seqs.append(list(c3(b)) if isinstance(b, Cls) else [b])
    seqs.append(list(cls.bases))
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(any(_same(c, x) for x in t[1:]) for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if _same(s[0], c):
                del s[0]


def _same(a, b):
    if a is b:
        return True
    return isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path


class Ext(Val):
    """external object by dotted path, e.g. numpy.nanmean"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class ExtBound(Val):
    """method of a modelled value: name + receiver"""
    __slots__ = ("name", "recv")

    def __init__(self, name, recv):
        self.name, self.recv = name, recv


class ModV(Val):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class SuperV(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Partial(Val):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class PhiV(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%s ? %r : %r)" % (self.c, self.a, self.b)


class Opq(Val):
    __slots__ = ("tag", "deps", "term")
    _n = itertools.count()

    def __init__(self, tag, deps=()):
        self.tag = tag
        self.deps = frozenset(deps)
        self.term = None

    def poly(self):
        if self.term is None:
            self.term = T.from_atom(T.mk_atom("opq", (str(self.tag), next(T._op_n)), opaque=True))
        return self.term

    def __repr__(self):
        return "Opq(%s)" % (self.tag,)


class SliceV(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seg:
    """val for each assignment of vars where guard holds (row-major order)"""
    __slots__ = ("vars", "guard", "val")

    def __init__(self, vars, guard, val):
        self.vars, self.guard, self.val = tuple(vars), guard, val

    def __repr__(self):
        return "Seg(%s|%s: %r)" % (",".join(map(repr, self.vars)), self.guard, self.val)


class MuSeg:
    """placeholder for the segments a list had at loop entry"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class SeqV(Val):
    """an immutable iterable given by segments (zip/map/range/generators/keys...)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="seq"):
        self.segs = list(segs)
        self.kind = kind

    def __repr__(self):
        return "SeqV(%r)" % (self.segs,)


# ----------------------------------------------------------------- heap contents

class Dim:
    __slots__ = ("vars", "guard")

    def __init__(self, vars, guard=ONE):
        self.vars = tuple(vars)
        self.guard = guard

    def size(self):
        s = ONE
        for v in self.vars:
            s = T.mul(s, v.size)
        if self.guard is not ONE:
            return T.ssum(list(self.vars), self.guard)
        return s

    def flat(self):
        r = ZERO
        for v in self.vars:
            r = T.mul(r, v.size) + T.idx(v)
        return r

    def __repr__(self):
        return "<%s%s>" % ("×".join("%r:%s" % (v, v.size) for v in self.vars) or "1",
                           "" if self.guard is ONE else "|%s" % self.guard)


class ArrC:
    __slots__ = ("dims", "val", "miss", "kind", "base", "elem")

    def __init__(self, dims, val, miss=ZERO, kind="num", base=None):
        self.dims = list(dims)
        self.val = T.lift(val)
        self.miss = miss
        self.kind = kind
        self.base = base

    def __repr__(self):
        return "Arr(%r, %s, miss=%s)" % (self.dims, self.val, self.miss)


class ListC:
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="list"):
        self.segs = list(segs)
        self.kind = kind       # list | set | deque

    def __repr__(self):
        return "%s%r" % (self.kind, self.segs)


class Ent:
    __slots__ = ("vars", "guard", "key", "val")

    def __init__(self, vars, guard, key, val):
        self.vars, self.guard, self.key, self.val = tuple(vars), guard, key, val

    def __repr__(self):
        return "{%s%s%r: %r}" % (",".join(map(repr, self.vars)), "" if self.guard is ONE else "|%s " % self.guard, self.key, self.val)


class MuEnt:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class DictC:
    __slots__ = ("ents", "fun", "default")

    def __init__(self, ents=(), fun=None):
        self.ents = list(ents)
        self.fun = fun            # optional functional map: (has(key)->Poly, val(key)->Val, keys SeqV)
        self.default = None

    def __repr__(self):
        return "Dict%r%s" % (self.ents, "+fun" if self.fun else "")


class InstC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

    def __repr__(self):
        return "Inst(%s %s)" % (self.cls, self.attrs)


class FunMap:
    """functional dict input: name, params -> has/val as applications"""
    __slots__ = ("has", "val", "keys")

    def __init__(self, has, val, keys):
        self.has, self.val, self.keys = has, val, keys
