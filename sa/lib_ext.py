"""Models of the library calls used by the analysed code (registered in lib.EXT / METH_*)."""
import math
from fractions import Fraction

from . import term as T
from .term import ONE, ZERO, Poly, Var
from .values import *
from . import lib as L

EXT = L.EXT


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def meth(tab, *names):
    def deco(f):
        for n in names:
            tab[n] = f
        return f
    return deco


def raise_(name, msg=""):
    from .interp import Raise
    raise Raise(name, msg)


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def kval(v, default=None):
    return v.v if isinstance(v, K) else default


def isnone(v):
    return v is None or isinstance(v, K) and v.v is None


# ================================================================= builtins
@ext("builtins.len")
def b_len(l, st, args, kw, node):
    I = l.I
    v = args[0]
    if isinstance(v, PhiV):
        return I.phi(st, v.c, b_len(l, st, [v.a], kw, node), b_len(l, st, [v.b], kw, node))
    if isinstance(v, K):
        if v.v is None or isinstance(v.v, (int, float)):
            raise_("TypeError", "len of %r" % (v.v,))
        return K(len(v.v))
    if isinstance(v, N):
        if v.kind in ("num", "int", "bool") and not v.val.opaque:
            raise_("TypeError", "len of number")
        return N(T.app("len", v.val, nonneg=True, integer=True), ZERO, "int")
    if isinstance(v, Tup):
        return K(len(v.items))
    if isinstance(v, Ref):
        c = I.content(st, v)
        if isinstance(c, ArrC):
            if not c.dims:
                raise_("TypeError", "len of unsized")
            return I.simp(N(c.dims[0].size(), ZERO, "int"))
        if isinstance(c, ListC):
            if c.kind == "set":
                return set_len(l, st, c.segs)
            n = I.seq_len(c.segs)
            if n is not None:
                return I.simp(N(n, ZERO, "int"))
            ks = ",".join(str(s.key) if isinstance(s, MuSeg) else "s" for s in c.segs)
            return N(T.opaque("len"), ZERO, "int")
        if isinstance(c, DictC):
            segs = l.dict_keys(st, c)
            if segs is not None:
                return I.simp(N(I.seq_len(segs), ZERO, "int"))
        if isinstance(c, InstC) and isinstance(c.cls, Cls):
            oc, m = c.cls.lookup("__len__")
            if m is not None:
                return I.call(st, m, [v], {}, node)
    if isinstance(v, SeqV):
        if v.kind in ("zip", "map", "filter", "gen", "enumerate"):
            raise_("TypeError", "len of an iterator")
        n = I.seq_len(v.segs)
        if n is not None:
            return I.simp(N(n, ZERO, "int"))
    return I.opq("len")


def set_len(l, st, segs):
    I = l.I
    if l.plain(segs) and all(isinstance(s.val, K) for s in segs):
        return K(len({s.val.v for s in segs}))
    if l.plain(segs) and l.objects(st, segs):
        return K(len({s.val.loc for s in segs}))
    if len(segs) == 1 and isinstance(segs[0], Seg):
        s = segs[0]
        t = I.term(st, s.val)
        if not t.opaque:
            if len(s.vars) == 1 and t is T.idx(s.vars[0]):
                return I.simp(N(T.ssum(list(s.vars), s.guard), ZERO, "int"))
            return N(T.red("ndistinct", list(s.vars), t, s.guard, symmetric=True), ZERO, "int")
    return I.opq("len of set")


@ext("builtins.range", "numpy.arange")
def b_range(l, st, args, kw, node):
    I = l.I
    ts = [I.term(st, a) for a in args]
    if any(t.opaque for t in ts):
        pass
    lo, step = ZERO, ONE
    if len(ts) == 1:
        hi = ts[0]
    else:
        lo, hi = ts[0], ts[1]
        if len(ts) > 2:
            step = ts[2]
    n = hi - lo
    if step is not ONE:
        if step.is_const and step.cval == -1:
            n = lo - hi
        elif n.is_const and step.is_const and step.cval != 0:
            n = T.const(max(0, math.ceil(n.cval / step.cval)))
        else:
            n = T.app("ceil", n / step, nonneg=True, integer=True)
    if n.is_const and n.cval < 0:
        n = ZERO
    v = Var("i", n)
    val = I.simp(N(lo + step * T.idx(v), ZERO, "int"))
    if n.is_const and n.cval <= 64:
        segs = [Seg((), ONE, I.simp(N(lo + step * i, ZERO, "int"))) for i in range(int(n.cval))]
    else:
        segs = [Seg((v,), ONE, val)]
    return SeqV(segs, "range")


@ext("numpy.arange")
def np_arange(l, st, args, kw, node):
    r = b_range(l, st, args, kw, node)
    c = l.arrc(st, r)
    return l.I.alloc(st, c) if c is not None else l.I.opq("arange")


def zip_segs(l, st, lists):
    """align several segment lists; returns list of Seg with Tup values or None"""
    I = l.I
    lists = [l.expand(x) for x in lists]
    if any(x is None for x in lists):
        return None
    if all(l.plain(x) for x in lists):
        n = min(len(x) for x in lists)
        return [Seg((), ONE, Tup([x[i].val for x in lists])) for i in range(n)]
    if len({len(x) for x in lists}) == 1:
        out = []
        for group in zip(*lists):
            s = align_segs(l, st, group)
            if s is None:
                out = None
                break
            out.append(s)
        if out is not None:
            return out
    # lengths equal but pieces differ: fall back to element access over a common index
    ns = [I.seq_len(x) if not any(isinstance(s, MuSeg) for s in x) else None for x in lists]
    if any(n is None for n in ns):
        return None
    n = ns[0]
    for m in ns[1:]:
        if m is not n:
            if m.is_const and n.is_const:
                n = T.const(min(m.cval, n.cval))
            elif T.lower_nonneg(m - n):
                pass
            elif T.lower_nonneg(n - m):
                n = m
            else:
                n = T.min_(n, m)
    v = Var("z", n)
    items = [l.seq_at(st, x, T.idx(v)) for x in lists]
    return [Seg((v,), ONE, Tup(items))]


def align_segs(l, st, group):
    I = l.I
    if any(isinstance(s, MuSeg) for s in group):
        return None
    base = group[0]
    vals = [base.val]
    if all(not s.vars for s in group):
        if any(s.guard is not base.guard for s in group):
            return None
        return Seg((), base.guard, Tup([s.val for s in group]))
    nb = ONE
    for v in base.vars:
        nb = T.mul(nb, v.size)
    flat = ZERO
    for v in base.vars:
        flat = T.mul(flat, v.size) + T.idx(v)
    for s in group[1:]:
        ns = ONE
        for v in s.vars:
            ns = T.mul(ns, v.size)
        if ns is not nb:
            return None
        mp = I.split_flat(flat, list(s.vars))
        g = T.subst(s.guard, mp)
        if g is not base.guard:
            return None
        vals.append(I.sub_val(s.val, mp))
    return Seg(base.vars, base.guard, Tup(vals))


@ext("builtins.zip")
def b_zip(l, st, args, kw, node):
    from .interp import StarArg
    I = l.I
    if len(args) == 1 and isinstance(args[0], StarArg):
        # zip(*pairs): transpose when every element is a tuple of known arity
        segs = l.segs(st, args[0].v)
        if segs is not None and all(isinstance(s, Seg) for s in segs):
            ar = set()
            els = []
            for s in segs:
                sub = l.segs(st, s.val)
                if sub is None or not l.plain(sub):
                    ar.add(None)
                    break
                ar.add(len(sub))
                els.append([x.val for x in sub])
            if len(ar) == 1 and None not in ar:
                n = ar.pop()
                return SeqV([Seg((), ONE, I.alloc(st, ListC([Seg(s.vars, s.guard, e[i]) for s, e in zip(segs, els)]))) for i in range(n)], "zip")
            # elements are symbolic-size sequences: transpose of a matrix
            if len(segs) == 1:
                c = l.arr_from_segs(st, segs)
                if c is not None and len(c.dims) >= 2:
                    d = [c.dims[1], c.dims[0]] + c.dims[2:]
                    return I.alloc(st, ArrC(d, c.val, c.miss, c.kind))
        return I.opq("zip(*)")
    if any(isinstance(a, StarArg) for a in args):
        return I.opq("zip(*)")
    for i, a in enumerate(args):
        if isinstance(a, PhiV):
            x, y = list(args), list(args)
            x[i], y[i] = a.a, a.b
            return PhiV(a.c, b_zip(l, st, x, kw, node), b_zip(l, st, y, kw, node))
    lists = [l.segs(st, a) for a in args]
    if any(x is None for x in lists):
        return I.opq("zip")
    r = zip_segs(l, st, lists)
    return SeqV(r, "zip") if r is not None else I.opq("zip")


def enum_segs(l, st, segs, start=ZERO):
    I = l.I
    out = []
    off = start
    for s in segs:
        if isinstance(s, MuSeg):
            return None
        if not s.vars:
            out.append(Seg((), s.guard, Tup([I.simp(N(off, ZERO, "int")), s.val])))
            off = off + s.guard
        else:
            r = l.rank(s)
            out.append(Seg(s.vars, s.guard, Tup([I.simp(N(off + r, ZERO, "int")), s.val])))
            off = off + T.ssum(list(s.vars), s.guard)
    return out


@ext("builtins.enumerate")
def b_enumerate(l, st, args, kw, node):
    I = l.I
    v = args[0]
    if isinstance(v, PhiV):
        return PhiV(v.c, b_enumerate(l, st, [v.a] + args[1:], kw, node), b_enumerate(l, st, [v.b] + args[1:], kw, node))
    segs = l.segs(st, v)
    if segs is None:
        return I.opq("enumerate")
    s = arg(args, kw, 1, "start")
    r = enum_segs(l, st, segs, I.term(st, s) if s is not None else ZERO)
    return SeqV(r, "enumerate") if r is not None else I.opq("enumerate")


def map_segs(l, st, f, segs, spread=False):
    """apply python-callable value f to each element"""
    I = l.I
    out = []
    for s in segs:
        if isinstance(s, MuSeg):
            return None
        ren, lv = {}, []
        for v in s.vars:
            w = Var(v.name.split("#")[0], T.subst(v.size, ren))
            ren[v] = T.idx(w)
            lv.append(w)
        val = I.sub_val(s.val, ren)
        g = T.subst(s.guard, ren)
        I.loopvars.extend(lv)
        try:
            r = f(val)
        finally:
            if lv:
                del I.loopvars[len(I.loopvars) - len(lv):]
        out.append(Seg(lv, g, r))
    return out


@ext("builtins.map")
def b_map(l, st, args, kw, node):
    I = l.I
    f = args[0]
    lists = [l.segs(st, a) for a in args[1:]]
    if any(x is None for x in lists):
        return I.opq("map")
    if len(lists) == 1:
        r = map_segs(l, st, lambda v: I.call(st, f, [v], {}, node), lists[0])
    else:
        z = zip_segs(l, st, lists)
        r = map_segs(l, st, lambda v: I.call(st, f, list(v.items), {}, node), z) if z is not None else None
    return SeqV(r, "map") if r is not None else I.opq("map")


@ext("builtins.filter")
def b_filter(l, st, args, kw, node):
    I = l.I
    segs = l.segs(st, args[1])
    if segs is None:
        return I.opq("filter")
    out = []
    for s in segs:
        if isinstance(s, MuSeg):
            return I.opq("filter")
        if isnone(args[0]):
            t = I.truth(st, s.val)
        else:
            I.loopvars.extend(s.vars)
            try:
                t = I.truth(st, I.call(st, args[0], [s.val], {}, node))
            finally:
                if s.vars:
                    del I.loopvars[len(I.loopvars) - len(s.vars):]
        g = T.mul(s.guard, t)
        if g is not ZERO:
            out.append(Seg(s.vars, g, s.val))
    return SeqV(out, "filter")


def mk_list(kind):
    def f(l, st, args, kw, node):
        I = l.I
        if not args:
            return I.alloc(st, ListC([], kind)) if kind != "tuple" else Tup([])
        v = args[0]
        if isinstance(v, PhiV):
            return I.phi(st, v.c, f(l, st, [v.a], kw, node), f(l, st, [v.b], kw, node))
        segs = l.segs(st, v)
        if segs is None:
            if isinstance(v, N) and v.kind == "any":
                return N(T.app("as_" + kind, v.val), ZERO, "any")
            return I.opq(kind)
        if kind == "tuple":
            e = l.expand(segs)
            if l.plain(e):
                return Tup([s.val for s in e])
            return SeqV(segs, "tuple")
        if kind in ("set", "frozenset"):
            return I.alloc(st, ListC(list(segs), "set"))
        return I.alloc(st, ListC(list(segs), kind))
    return f


EXT["builtins.list"] = mk_list("list")
EXT["builtins.tuple"] = mk_list("tuple")
EXT["builtins.set"] = mk_list("set")
EXT["builtins.frozenset"] = mk_list("set")
EXT["collections.deque"] = mk_list("list")


@ext("builtins.dict", "collections.OrderedDict", "collections.defaultdict")
def b_dict(l, st, args, kw, node):
    I = l.I
    r = I.alloc(st, DictC())
    if args and not isinstance(args[0], (Ext, Fn)):
        v = args[0]
        if isinstance(v, PhiV):
            return I.phi(st, v.c, b_dict(l, st, [v.a], kw, node), b_dict(l, st, [v.b], kw, node))
        c = I.content(st, v) if isinstance(v, Ref) else None
        if isinstance(c, DictC):
            st.heap[r.loc] = DictC(list(c.ents), c.fun)
        elif isinstance(v, ExtBound) and v.name == "__dict__":
            l.dict_update(st, r, v)
        else:
            segs = l.segs(st, v)
            ok = segs is not None and all(isinstance(s, Seg) for s in segs)
            ents = []
            if ok:
                for s in segs:
                    p = l.segs(st, s.val)
                    if p is None or not l.plain(p) or len(p) != 2:
                        ok = False
                        break
                    ents.append(Ent(s.vars, s.guard, p[0].val, p[1].val))
            if not ok:
                return I.opq("dict()")
            d = DictC()
            for e in ents:
                d = l.dict_put(st, d, e.key, e.val) if not e.vars and e.guard is ONE else DictC(d.ents + [e], d.fun)
            st.heap[r.loc] = d
    if args and isinstance(args[0], (Ext, Fn)):
        st.heap[r.loc].default = args[0]
    for k, v in kw.items():
        st.heap[r.loc] = l.dict_put(st, st.heap[r.loc], K(k), v)
    return r


@ext("builtins.sorted")
def b_sorted(l, st, args, kw, node):
    I = l.I
    v = args[0]
    c = I.content(st, v) if isinstance(v, Ref) else None
    isset = isinstance(c, ListC) and c.kind == "set"
    segs = c.segs if isset else l.segs(st, v)
    if segs is None:
        return I.opq("sorted")
    segs = l.expand(segs)
    return I.alloc(st, ListC(sort_segs(l, st, segs, kw, isset, node)))


def sort_segs(l, st, segs, kw, isset, node):
    I = l.I
    rev = kw.get("reverse")
    rv = bool(kval(rev, False)) if not isnone(rev) else False
    key = kw.get("key")
    if l.plain(segs) and all(isinstance(s.val, K) for s in segs) and isnone(key):
        xs = [s.val.v for s in segs]
        if isset:
            xs = list(set(xs))
        try:
            return [Seg((), ONE, K(x)) for x in sorted(xs, reverse=rv)]
        except TypeError:
            raise_("TypeError", "sorted")
    if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].vars:
        s = segs[0]
        if isnone(key) and not rv:
            t = I.term(st, s.val)
            mm = t.mono()
            if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][0].kind == "red" and mm[1][0][0].data[0] in ("setelem", "usorted") \
                    and len(s.vars) == 1 and s.guard is ONE and mm[1][0][0].data[-1] is T.idx(s.vars[0]):
                a = mm[1][0][0]
                return [Seg(s.vars, ONE, N(T.rebuild_atom(T.mk_atom("red", ("usorted",) + a.data[1:], bound=set(a.data[1])), lambda p: p), ZERO, I.kind(s.val)))]
            if not t.opaque:
                if t is T.idx(s.vars[0]) and len(s.vars) == 1:
                    return [s]
                nm = "usorted" if isset else "sorted"
                n = T.red("ndistinct", list(s.vars), t, s.guard, symmetric=True) if isset else T.ssum(list(s.vars), s.guard)
                k = Var("k", n)
                return [Seg((k,), ONE, N(T.red(nm, list(s.vars), t, s.guard, T.idx(k), symmetric=True), ZERO, I.kind(s.val)))]
    if isset and isnone(key) and len(segs) > 1 and l.plain(segs) and all(isinstance(s.val, (K, N)) for s in segs):
        a = l.arr_from_segs(st, segs)
        if a is not None and len(a.dims) == 1 and a.miss is ZERO:
            r = sort_segs(l, st, [Seg(a.dims[0].vars, a.dims[0].guard, N(a.val, ZERO, a.kind))], {}, True, node)
            if not rv:
                return r
    r = sort_by(l, st, segs, key, rv) if not isset else None
    if r is not None:
        return r
    I.note("sorted opaque")
    n = None
    try:
        n = I.seq_len(segs)
    except Exception:
        n = None
    k = Var("k", n if n is not None else T.opaque("n"))
    return [Seg((k,), ONE, Opq("sorted"))]


def sort_by(l, st, segs, key, rv):
    """stable sort by key: the element at the index whose key has rank k"""
    I = l.I
    if not segs or not all(isinstance(s, Seg) for s in segs):
        return None

    def keyof(x):
        return x if isnone(key) else I.call(st, key, [x], {})
    if l.plain(segs):
        ks = [keyof(s.val) for s in segs]
        if all(isinstance(k, K) or isinstance(k, Tup) and all(isinstance(q, K) for q in k.items) for k in ks):
            raw = [k.v if isinstance(k, K) else tuple(q.v for q in k.items) for k in ks]
            try:
                o = sorted(range(len(segs)), key=lambda i: raw[i], reverse=rv)
            except TypeError:
                raise_("TypeError", "sorted")
            return [segs[i] for i in o]
        if len(segs) > 12:
            return None
        v = Var("z", T.const(len(segs)))
        kt, g = ZERO, ONE
        for i, k in enumerate(ks):
            q = I.num(st, k) if isinstance(k, (K, N)) and I.kind(k) in ("num", "int", "bool") else None
            if q is None or q[1] is not ZERO or q[0].opaque:
                return None
            kt = kt + T.mul(T.eq(v, i), q[0])
        out = []
        for i in range(len(segs)):
            p = T.red("argsort", [v], kt, g, T.const(i), T.const(1 if rv else 0), integer=True, nonneg=True)
            out.append(Seg((), ONE, l.seq_at(st, segs, p)))
        return out
    if len(segs) == 1 and len(segs[0].vars) == 1:
        s = segs[0]
        v = s.vars[0]
        k = keyof(s.val)
        q = I.num(st, k) if isinstance(k, (K, N)) and I.kind(k) in ("num", "int", "bool") else None
        if q is None or q[1] is not ZERO or q[0].opaque:
            return None
        w = Var("k", T.ssum(v, s.guard))
        p = T.red("argsort", [v], q[0], s.guard, T.idx(w), T.const(1 if rv else 0), integer=True, nonneg=True)
        return [Seg((w,), ONE, I.sub_val(s.val, {v: p}))]
    return None


@ext("numpy.argsort")
def np_argsort(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None or len(c.dims) != 1 or len(c.dims[0].vars) != 1 or c.miss is not ZERO or c.dims[0].guard is not ONE:
        return I.opq("argsort")
    v = c.dims[0].vars[0]
    w = Var("k", v.size)
    return I.arr(st, [Dim([w])], T.red("argsort", [v], c.val, ONE, T.idx(w), ZERO, integer=True, nonneg=True), ZERO, "int")


@ext("builtins.reversed")
def b_reversed(l, st, args, kw, node):
    I = l.I
    segs = l.segs(st, args[0])
    if segs is None:
        return I.opq("reversed")
    out = []
    for s in reversed(l.expand(segs)):
        if isinstance(s, MuSeg):
            return I.opq("reversed")
        mp = {v: v.size - 1 - T.idx(v) for v in s.vars}
        out.append(Seg(s.vars, T.subst(s.guard, mp), I.sub_val(s.val, mp)))
    return SeqV(out)


@ext("builtins.sum")
def b_sum(l, st, args, kw, node):
    I = l.I
    v = args[0]
    start = arg(args, kw, 1, "start", K(0))
    if isinstance(v, Opq):
        return I.opq("sum")
    segs = l.segs(st, v)
    if segs is None:
        return I.opq("sum")
    # sum of lists
    sc = I.content(st, start) if isinstance(start, Ref) else None
    if isinstance(sc, ListC):
        out = list(sc.segs)
        for s in segs:
            if isinstance(s, MuSeg):
                return I.opq("sum")
            inner = l.segs(st, s.val)
            if inner is None:
                return I.opq("sum")
            for x in inner:
                if isinstance(x, MuSeg):
                    return I.opq("sum")
                out.append(Seg(tuple(s.vars) + tuple(x.vars), T.mul(s.guard, x.guard), x.val))
        return I.alloc(st, ListC(out))
    acc = start
    for s in l.expand(segs):
        if isinstance(s, MuSeg):
            return I.opq("sum")
        if not s.vars:
            x = s.val
            if s.guard is not ONE:
                q = I.num(st, x)
                x = I.simp(N(T.mul(s.guard, q[0]), T.mul(s.guard, q[1]), I.kind(x))) if q is not None else l.binop(st, "Mult", N(s.guard, ZERO, "bool"), x)
            acc = l.binop(st, "Add", acc, x)
            continue
        a = l.arrc(st, s.val)
        if a is None:
            return I.opq("sum")
        val = T.ssum(list(s.vars), a.val, s.guard)
        miss = T.any_(list(s.vars), a.miss, s.guard) if a.miss is not ZERO else ZERO
        kind = "int" if a.kind in ("int", "bool") else "num"
        x = I.simp(N(val, miss, kind)) if not a.dims else I.arr(st, a.dims, val, miss, kind)
        acc = l.binop(st, "Add", acc, x)
    return acc


def minmax(which):
    def f(l, st, args, kw, node):
        I = l.I
        if len(args) == 1:
            v = args[0]
            if isinstance(v, PhiV):
                return I.phi(st, v.c, f(l, st, [v.a], kw, node), f(l, st, [v.b], kw, node))
            segs = l.segs(st, v)
            if segs is None:
                return I.opq(which)
            segs = l.expand(segs)
        else:
            segs = [Seg((), ONE, a) for a in args]
        if "key" in kw:
            return I.opq(which + " key")
        ts = []
        kinds = set()
        for s in segs:
            if isinstance(s, MuSeg):
                return I.opq(which)
            n = I.num(st, s.val)
            if n is None or n[1] is not ZERO and not isinstance(s.val, N):
                return I.opq(which)
            kinds.add(I.kind(s.val))
            if s.vars:
                nm = "rmax" if which == "max" else "rmin"
                ts.append(T.red(nm, list(s.vars), n[0]) if s.guard is ONE else T.red(nm, list(s.vars), n[0], s.guard))
            elif s.guard is ONE:
                ts.append(n[0])
            else:
                return I.opq(which + " guarded")
        if not ts:
            if "default" in kw:
                return kw["default"]
            raise_("ValueError", which + " of empty")
        r = ts[0]
        for t in ts[1:]:
            r = T.max_(r, t) if which == "max" else T.min_(r, t)
        return I.simp(N(r, ZERO, "int" if kinds <= {"int", "bool"} else "num"))
    return f


EXT["builtins.max"] = minmax("max")
EXT["builtins.min"] = minmax("min")


@ext("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def b_abs(l, st, args, kw, node):
    return l.ew(st, T.absv, [args[0]], l.I.kind(args[0]) if isinstance(args[0], (K, N)) else "num")


def anyall(which):
    def f(l, st, args, kw, node):
        I = l.I
        segs = l.segs(st, args[0])
        if segs is None:
            return N(T.app("truth", T.opaque(which), boolean=True), ZERO, "bool")
        r = ZERO if which == "any" else ONE
        for s in l.expand(segs):
            if isinstance(s, MuSeg):
                return N(T.app("truth", T.opaque(which), boolean=True), ZERO, "bool")
            t = I.truth(st, s.val)
            if which == "any":
                r = T.or_(r, T.any_(list(s.vars), t, s.guard) if s.vars else T.mul(t, s.guard))
            else:
                x = T.all_(list(s.vars), t, s.guard) if s.vars else ONE - T.mul(s.guard, ONE - t)
                r = T.mul(r, x)
        return I.simp(N(r, ZERO, "bool"))
    return f


EXT["builtins.any"] = anyall("any")
EXT["builtins.all"] = anyall("all")


@ext("builtins.isinstance")
def b_isinstance(l, st, args, kw, node):
    return l.I.simp(N(l.isinst(st, args[0], args[1]), ZERO, "bool"))


@ext("builtins.issubclass")
def b_issubclass(l, st, args, kw, node):
    a, b = args
    if isinstance(a, Cls):
        return K(any(x is b for x in a.mro()))
    return l.I.opq("issubclass")


@ext("builtins.hasattr")
def b_hasattr(l, st, args, kw, node):
    if not isinstance(args[1], K):
        return l.I.opq("hasattr")
    return l.I.simp(N(l.hasattr(st, args[0], args[1].v), ZERO, "bool"))


@ext("re.match", "re.fullmatch", "re.search")
def re_match(l, st, args, kw, node):
    import re
    if len(args) == 2 and all(isinstance(a, K) and isinstance(a.v, str) for a in args) and not kw:
        m = getattr(re, l.I.lib_path.split(".")[-1])(args[0].v, args[1].v)
        return K(None) if m is None else K("<match %s>" % m.group(0))
    l.I.note("unmodelled call " + l.I.lib_path)
    return l.I.opq("match")


@ext("builtins.dir")
def b_dir(l, st, args, kw, node):
    I = l.I
    if len(args) != 1 or not isinstance(args[0], Cls):
        I.note("unmodelled call builtins.dir")
        return I.opq("dir")
    names = set()
    for c in args[0].mro():
        if isinstance(c, Cls):
            names |= set(c.ns)
    return I.alloc(st, ListC([Seg((), ONE, K(n)) for n in sorted(names)]))


@ext("builtins.getattr")
def b_getattr(l, st, args, kw, node):
    I = l.I
    if not isinstance(args[1], K):
        return I.opq("getattr")
    if len(args) > 2:
        h = l.hasattr(st, args[0], args[1].v)
        if h is ZERO:
            return args[2]
        if h is ONE:
            return I.getattr(st, args[0], args[1].v)
        return I.phi(st, h, I.getattr(st, args[0], args[1].v), args[2])
    return I.getattr(st, args[0], args[1].v)


@ext("builtins.setattr")
def b_setattr(l, st, args, kw, node):
    if isinstance(args[1], K):
        l.I.setattr(st, args[0], args[1].v, args[2])
    else:
        l.I.note("setattr dynamic")
    return K(None)


@ext("builtins.vars")
def b_vars(l, st, args, kw, node):
    return ExtBound("__dict__", args[0])


@ext("builtins.callable")
def b_callable(l, st, args, kw, node):
    return K(isinstance(args[0], (Fn, Cls, Bound, Ext, Partial, ExtBound)))


def pyconst(l, st, v):
    """(True, the constant a value denotes) or (False, None)"""
    if isinstance(v, K):
        return (True, v.v) if v.v is None or isinstance(v.v, (str, bytes, bool, int, float, tuple)) else (False, None)
    if isinstance(v, Tup):
        xs = [pyconst(l, st, x) for x in v.items]
        return all(o for o, _ in xs), tuple(x for _, x in xs)
    c = l.I.content(st, v) if isinstance(v, Ref) else None
    if isinstance(c, ListC) and c.kind == "list" and l.plain(c.segs):
        xs = [pyconst(l, st, s.val) for s in c.segs]
        return all(o for o, _ in xs), [x for _, x in xs]
    if isinstance(c, DictC) and c.fun is None and c.default is None:
        xs = [(pyconst(l, st, e.key), pyconst(l, st, e.val)) for e in c.ents if isinstance(e, Ent) and not e.vars and e.guard is ONE]
        if len(xs) == len(c.ents):
            return all(a[0] and b[0] for a, b in xs), {a[1]: b[1] for a, b in xs if a[0]}
    return False, None


@ext("builtins.str", "builtins.repr")
def b_str(l, st, args, kw, node):
    I = l.I
    if not args:
        return K("")
    v = args[0]
    if isinstance(v, K):
        return K(repr(v.v) if I.lib_path == "builtins.repr" else str(v.v))
    if isinstance(v, N):
        if v.kind == "str":
            return v
        return N(T.app("str", v.val), ZERO, "str")
    ok, x = pyconst(l, st, v)
    if ok:
        return K(str(x))
    if isinstance(v, PhiV):
        return I.phi(st, v.c, b_str(l, st, [v.a], kw, node), b_str(l, st, [v.b], kw, node))
    t = I.term(st, v)
    return N(T.app("str", t), ZERO, "str")


@ext("builtins.float", "numpy.float64", "numpy.float", "numpy.float32")
def b_float(l, st, args, kw, node):
    I = l.I
    v = args[0] if args else K(0.0)
    if isinstance(v, K):
        if isinstance(v.v, str):
            try:
                x = float(v.v)
            except ValueError:
                raise_("ValueError", "float")
            if x in (float("inf"),):
                return N(T.sym("inf", pos=True))
            return K(x)
        if v.v is None:
            raise_("TypeError", "float(None)")
        n = I.num(st, v)
        return N(n[0], n[1], "num") if n else I.opq("float")
    n = I.num(st, v)
    if isinstance(v, N) and v.kind == "str":
        return N(T.app("parsefloat", v.val), ZERO, "num")
    if n is not None:
        return I.simp(N(n[0], n[1], "num"))
    return I.opq("float")


@ext("builtins.int", "numpy.int64", "numpy.int32", "numpy.int")
def b_int(l, st, args, kw, node):
    I = l.I
    v = args[0] if args else K(0)
    if isinstance(v, K):
        try:
            return K(int(v.v))
        except (ValueError, TypeError) as e:
            raise_(type(e).__name__, "int")
    n = I.num(st, v)
    if n is None:
        return I.opq("int")
    if I.kind(v) in ("int", "bool") or T.integral(n[0]):
        return I.simp(N(n[0], n[1], "int"))
    if n[0].is_const:
        return K(int(n[0].cval))
    if isinstance(v, N) and v.kind == "str":
        return N(T.app("parseint", v.val, integer=True), ZERO, "int")
    return N(T.app("trunc", n[0], integer=True), n[1], "int")


@ext("builtins.bool", "numpy.bool_")
def b_bool(l, st, args, kw, node):
    return l.I.simp(N(l.I.truth(st, args[0]), ZERO, "bool")) if args else K(False)


@ext("builtins.round", "numpy.round", "numpy.around", "numpy.rint")
def b_round(l, st, args, kw, node):
    I = l.I
    nd = arg(args, kw, 1, "decimals", arg(args, kw, 1, "ndigits"))
    d = I.term(st, nd) if not isnone(nd) else ZERO
    return l.ew(st, lambda x: T.app("round", x, d), [args[0]], "int" if isnone(nd) and I.lib_path == "builtins.round" else "num")


@ext("builtins.type")
def b_type(l, st, args, kw, node):
    I = l.I
    if len(args) == 3:
        c = Cls(kval(args[0], "anon"), [], {}, None, None)
        return c
    v = args[0]
    if isinstance(v, K):
        return Ext("builtins." + type(v.v).__name__)
    if isinstance(v, N):
        return {"num": Ext("builtins.float"), "int": Ext("builtins.int"), "bool": Ext("builtins.bool"), "str": Ext("builtins.str")}.get(v.kind) or I.opq("type")
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, Ref):
        c = I.content(st, v)
        if isinstance(c, InstC):
            return c.cls
        if isinstance(c, ListC):
            return Ext("builtins." + c.kind)
        if isinstance(c, DictC):
            return Ext("builtins.dict")
        if isinstance(c, ArrC):
            return Ext("numpy.ndarray")
    return I.opq("type")


@ext("builtins.print", "sys.stdout.write", "sys.stdout.flush", "sys.stderr.write")
def b_print(l, st, args, kw, node):
    l.I.event(st, "effect", "print", tuple(args), dict(kw))
    return K(None)


@ext("builtins.object")
def b_object(l, st, args, kw, node):
    return l.I.alloc(st, InstC(Ext("object"), {}))


EXT["builtins.object.__init__"] = lambda l, st, a, k, n: K(None)


@ext("argparse.Namespace", "types.SimpleNamespace")
def b_namespace(l, st, args, kw, node):
    return l.I.alloc(st, InstC(Ext("object"), dict(kw)))


@ext("builtins.iter")
def b_iter(l, st, args, kw, node):
    return args[0]


@ext("builtins.next")
def b_next(l, st, args, kw, node):
    I = l.I
    segs = l.segs(st, args[0])
    if segs is None:
        return I.opq("next")
    if len(args) > 1:
        n = I.seq_len(segs)
        if n is ZERO:
            return args[1]
        return I.phi(st, T.gt0(n), l.seq_at(st, segs, ZERO), args[1])
    return l.seq_at(st, segs, ZERO)


@ext("builtins.open")
def b_open(l, st, args, kw, node):
    l.I.event(st, "effect", "open", tuple(args), dict(kw))
    f = vfs(l, st)
    if f is not None and isinstance(args[0], K):
        m = arg(args, kw, 1, "mode", K("r"))
        if isinstance(m, K) and ("w" in m.v or "x" in m.v):
            f[args[0].v] = None
        elif isinstance(m, K) and "r" in m.v and args[0].v not in f:
            raise_("FileNotFoundError", "open")
    return l.I.alloc(st, InstC(Ext("file"), {"path": args[0], "mode": arg(args, kw, 1, "mode", K("r"))}))


@ext("builtins.pow", "numpy.power", "math.pow")
def b_pow(l, st, args, kw, node):
    return l.binop(st, "Pow", args[0], args[1])


@ext("builtins.divmod")
def b_divmod(l, st, args, kw, node):
    return Tup([l.binop(st, "FloorDiv", args[0], args[1]), l.binop(st, "Mod", args[0], args[1])])


@ext("functools.partial")
def b_partial(l, st, args, kw, node):
    return Partial(args[0], list(args[1:]), dict(kw))


@ext("functools.reduce")
def b_reduce(l, st, args, kw, node):
    I = l.I
    segs = l.expand(l.segs(st, args[1]))
    if not l.plain(segs):
        return I.opq("reduce")
    it = [s.val for s in segs]
    acc = args[2] if len(args) > 2 else it.pop(0)
    for x in it:
        acc = I.call(st, args[0], [acc, x], {}, node)
    return acc


@ext("itertools.product")
def it_product(l, st, args, kw, node):
    I = l.I
    lists = [l.segs(st, a) for a in args]
    if any(x is None for x in lists):
        return I.opq("product")
    cur = [((), ONE, [])]
    for segs in lists:
        nxt = []
        for vs, g, vals in cur:
            for s in segs:
                if isinstance(s, MuSeg):
                    return I.opq("product")
                ren, lv = {}, []
                for v in s.vars:
                    w = Var(v.name.split("#")[0], v.size)
                    ren[v] = T.idx(w)
                    lv.append(w)
                nxt.append((tuple(vs) + tuple(lv), T.mul(g, T.subst(s.guard, ren)), vals + [I.sub_val(s.val, ren)]))
        cur = nxt
    return SeqV([Seg(vs, g, Tup(vals)) for vs, g, vals in cur])


@ext("itertools.combinations")
def it_comb(l, st, args, kw, node):
    I = l.I
    segs = l.segs(st, args[0])
    if kval(args[1]) != 2 or segs is None or len(segs) != 1 or not isinstance(segs[0], Seg) or len(segs[0].vars) != 1:
        return I.opq("combinations")
    s = segs[0]
    v = s.vars[0]
    w = Var("w", v.size)
    return SeqV([Seg((v, w), T.and_(s.guard, T.subst(s.guard, {v: T.idx(w)}), T.lt(v, w)), Tup([s.val, I.sub_val(s.val, {v: T.idx(w)})]))])


@ext("itertools.chain")
def it_chain(l, st, args, kw, node):
    out = []
    for a in args:
        s = l.segs(st, a)
        if s is None:
            return l.I.opq("chain")
        out += s
    return SeqV(out)


@ext("itertools.chain.from_iterable")
def it_chain2(l, st, args, kw, node):
    return SeqV(l.segs(st, b_sum(l, st, [args[0], l.I.alloc(st, ListC([]))], {}, node)) or [])


# ================================================================= copy / misc
EXT["copy.deepcopy"] = lambda l, st, a, k, n: l.deepcopy(st, a[0])
EXT["copy.copy"] = lambda l, st, a, k, n: l.shallow(st, a[0])


@ext("abc.abstractmethod")
def abcm(l, st, args, kw, node):
    return args[0]


@ext("os.path.join", "os.path.basename", "os.path.dirname", "os.path.abspath", "os.path.realpath", "os.path.splitext",
     "os.path.normpath", "os.path.expanduser", "os.getcwd")
def os_path(l, st, args, kw, node):
    nm = l.I.lib_path.split(".")[-1]
    if nm in ("join", "basename", "dirname", "splitext", "normpath") and args and all(isinstance(a, K) and isinstance(a.v, str) for a in args):
        import posixpath
        v = getattr(posixpath, nm)(*[a.v for a in args])
        return Tup([K(x) for x in v]) if isinstance(v, tuple) else K(v)
    t = T.app("path_" + nm, *[l.I.term(st, a) for a in args])
    if nm == "splitext":
        return Tup([N(T.app("path_root", *[l.I.term(st, a) for a in args]), ZERO, "str"), N(T.app("path_ext", *[l.I.term(st, a) for a in args]), ZERO, "str")])
    return N(t, ZERO, "str")


def vfs(l, st):
    """the file system a rule declares (path -> content), or None"""
    f = getattr(l.I, "vfs", None)
    if f is not None and (st.pc is not ONE or l.I.loopvars):
        from .interp import Abort
        raise Abort("conditional file access")
    return f


def via_json(l, st, v):
    """a copy of the value as it comes back from a JSON text"""
    if isinstance(v, (Tup, SeqV)) or isinstance(v, Ref) and isinstance(l.I.content(st, v), ListC):
        segs = l.segs(st, v)
        if segs is None or not l.plain(segs):
            return Opq("json")
        return l.I.alloc(st, ListC([Seg((), ONE, via_json(l, st, s.val)) for s in segs]))
    c = l.I.content(st, v) if isinstance(v, Ref) else None
    if isinstance(c, DictC):
        out = []
        for e in c.ents:
            if not isinstance(e, Ent) or e.vars or e.guard is not ONE or not isinstance(e.key, K):
                return Opq("json")
            k = e.key.v
            k = k if isinstance(k, str) else "null" if k is None else str(k).lower() if isinstance(k, bool) else str(k)
            out.append(Ent((), ONE, K(k), via_json(l, st, e.val)))
        return l.I.alloc(st, DictC(out))
    if isinstance(v, (K, N)):
        return v
    if isinstance(c, ArrC):
        raise_("TypeError", "an array is not JSON serializable")
    return Opq("json")


@ext("os.path.exists", "os.path.isfile", "os.path.isdir")
def os_exists(l, st, args, kw, node):
    f = vfs(l, st)
    if f is not None and isinstance(args[0], K):
        p = args[0].v
        isdir = any(q.startswith(p.rstrip("/") + "/") for q in f)
        return K({"exists": isdir or p in f, "isfile": p in f, "isdir": isdir}[l.I.lib_path.split(".")[-1]])
    l.I.event(st, "effect", "fs_query", tuple(args), {})
    return N(T.app("fs_exists", l.I.term(st, args[0]), boolean=True), ZERO, "bool")


@ext("os.makedirs", "os.remove", "os.rename", "os.replace", "os.unlink", "shutil.rmtree", "json.dump", "pickle.dump")
def fs_write(l, st, args, kw, node):
    f = vfs(l, st)
    if f is not None:
        nm = l.I.lib_path
        c = l.I.content(st, args[1]) if len(args) > 1 and isinstance(args[1], Ref) else None
        if nm == "json.dump" and isinstance(c, InstC) and isinstance(c.attrs.get("path"), K):
            f[c.attrs["path"].v] = via_json(l, st, args[0])
        elif nm == "os.makedirs" and isinstance(args[0], K):
            f[args[0].v.rstrip("/") + "/."] = None
        elif nm in ("os.rename", "os.replace") and all(isinstance(a, K) for a in args[:2]) and args[0].v in f:
            f[args[1].v] = f.pop(args[0].v)
        elif nm in ("os.remove", "os.unlink") and isinstance(args[0], K) and args[0].v in f:
            del f[args[0].v]
        else:
            l.I.vfs = None
            l.I.note("unmodelled file operation")
    l.I.event(st, "effect", "fs_write:" + l.I.lib_path, tuple(args), dict(kw))
    return K(None)


@ext("json.load", "pickle.load", "json.loads")
def fs_load(l, st, args, kw, node):
    l.I.event(st, "effect", "fs_read:" + l.I.lib_path, tuple(args), dict(kw))
    c = l.I.content(st, args[0]) if args and isinstance(args[0], Ref) else None
    if l.I.lib_path == "json.load" and isinstance(c, InstC) and "path" in c.attrs:
        f = vfs(l, st)
        if f is not None and isinstance(c.attrs["path"], K) and c.attrs["path"].v in f:
            v = f[c.attrs["path"].v]
            if v is None:
                raise_("ValueError", "no JSON text")
            return via_json(l, st, v)
        v = file_value(l, st, c.attrs["path"])
        if v is not None:
            return v
    return Opq("loaded")


@ext("json.dumps")
def j_dumps(l, st, args, kw, node):
    l.I.event(st, "effect", "json.dumps", tuple(args), dict(kw))
    return N(T.app("json", l.I.term(st, args[0]) if not isinstance(args[0], Ref) else T.opaque("json")), ZERO, "str")


@ext("time.time", "time.perf_counter", "time.process_time", "datetime.datetime.now")
def t_time(l, st, args, kw, node):
    I = l.I
    I.event(st, "nondet", I.lib_path)
    n = I.rnd["time"] = I.rnd.get("time", 0) + 1
    return N(T.app("clock", T.const(n), *[T.idx(v) for v in I.loopvars]), ZERO, "num")


# ================================================================= numpy: elementwise
def ew1(path, f, kind="num"):
    EXT[path] = lambda l, st, a, k, n: l.ew(st, f, [a[0]], kind)


for _m in ("numpy", "math"):
    ew1(_m + ".sqrt", lambda x: T.power(x, Fraction(1, 2)))
    ew1(_m + ".exp", lambda x: T.fn("exp", x))
    ew1(_m + ".log", lambda x: T.fn("log", x))
    ew1(_m + ".log2", lambda x: T.fn("log", x) / T.fn("log", T.const(2)))
    ew1(_m + ".log10", lambda x: T.fn("log", x) / T.fn("log", T.const(10)))
    ew1(_m + ".log1p", lambda x: T.fn("log", x + 1))
    ew1(_m + ".tan", lambda x: T.fn("tan", x))
    ew1(_m + ".sin", lambda x: T.fn("sin", x))
    ew1(_m + ".cos", lambda x: T.fn("cos", x))
    ew1(_m + ".tanh", lambda x: T.fn("tanh", x))
    ew1(_m + ".cosh", lambda x: (T.fn("exp", x) + T.fn("exp", -x)) / 2)
    ew1(_m + ".floor", lambda x: T.floordiv(x, ONE), "int" if _m == "math" else "num")
    ew1(_m + ".ceil", lambda x: -T.floordiv(-x, ONE), "int" if _m == "math" else "num")
    ew1(_m + ".erf", lambda x: T.fn("erf", x))
ew1("numpy.square", lambda x: T.power(x, 2))
ew1("numpy.negative", lambda x: -x)
ew1("numpy.reciprocal", lambda x: T.power(x, -1))
ew1("numpy.sign", lambda x: T.gt0(x) - T.gt0(-x))
ew1("numpy.logical_not", lambda x: ONE - x, "bool")


@ext("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull")
def np_isnan(l, st, args, kw, node):
    I = l.I
    v = args[0]
    if isinstance(v, Opq):
        return N(T.app("truth", T.opaque("isnan"), boolean=True), ZERO, "bool")
    c = l.arrc(st, v)
    if c is None:
        return I.opq("isnan")
    if c.kind == "any" and c.miss is ZERO:
        return N(T.app("isnan", c.val, boolean=True), ZERO, "bool") if not c.dims else I.arr(st, c.dims, T.app("isnan", c.val, boolean=True), ZERO, "bool")
    if not c.dims:
        return I.simp(N(c.miss, ZERO, "bool"))
    return I.arr(st, c.dims, c.miss, ZERO, "bool")


@ext("numpy.isfinite")
def np_isfinite(l, st, args, kw, node):
    r = np_isnan(l, st, args, kw, node)
    return l.unop(st, "Invert", r) if not isinstance(r, K) else K(not r.v)


def ew2(path, f, kind="num"):
    EXT[path] = lambda l, st, a, k, n: l.ew(st, f, [a[0], a[1]], kind)


ew2("numpy.maximum", T.max_)
ew2("numpy.minimum", T.min_)
for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv"), ("float_power", "Pow")):
    EXT["numpy." + _n] = (lambda o: lambda l, st, a, k, n: l.binop(st, o, a[0], a[1]))(_o)
EXT["math.fmod"] = EXT["numpy.mod"]
ew2("numpy.logical_and", T.mul, "bool")
ew2("numpy.logical_or", T.or_, "bool")
for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
    EXT["numpy." + _n] = (lambda o: lambda l, st, a, k, n: l.cmp_arr(st, o, a[0], a[1]))(_o)


@ext("numpy.clip")
def np_clip(l, st, args, kw, node):
    x = args[0]
    lo, hi = arg(args, kw, 1, "a_min"), arg(args, kw, 2, "a_max")
    if not isnone(lo):
        x = l.ew(st, T.max_, [x, lo])
    if not isnone(hi):
        x = l.ew(st, T.min_, [x, hi])
    return x


@ext("numpy.where")
def np_where(l, st, args, kw, node):
    I = l.I
    if len(args) == 1:
        c = l.arrc(st, args[0])
        if c is None or len(c.dims) != 1 or len(c.dims[0].vars) != 1:
            return I.opq("where1")
        d = c.dims[0]
        return Tup([I.alloc(st, ArrC([Dim(d.vars, T.mul(d.guard, c.val if c.kind == "bool" else ONE - T.eq0(c.val)))], T.idx(d.vars[0]), ZERO, "int"))])
    arrs = [l.arrc(st, a) for a in args[:3]]
    if any(a is None for a in arrs):
        return I.opq("where")
    try:
        dims, vm = l.broadcast(arrs)
    except L.Mismatch as m:
        return l.shape_error(st, arrs, str(m))
    (c, cm), (a, am), (b, bm) = vm
    if arrs[0].kind != "bool":
        c = ONE - T.eq0(c)
    if cm is not ZERO:
        return I.opq("where nan cond")
    # NaN constants carry no value
    if am is ONE:
        a = b
    if bm is ONE:
        b = a
    val, miss = T.phi(c, a, b), T.phi(c, am, bm)
    if not dims:
        return I.simp(N(val, miss))
    return I.arr(st, dims, val, miss, arrs[1].kind if arrs[1].kind == arrs[2].kind else "num")


@ext("numpy.nan_to_num")
def np_nan_to_num(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None:
        return I.opq("nan_to_num")
    r = T.phi(c.miss, ZERO, c.val)
    return I.arr(st, c.dims, r) if c.dims else I.simp(N(r))


# ================================================================= numpy: construction
@ext("numpy.zeros")
def np_zeros(l, st, args, kw, node):
    return l.filled(st, arg(args, kw, 0, "shape"), ZERO)


@ext("numpy.empty")
def np_empty(l, st, args, kw, node):
    return l.filled(st, arg(args, kw, 0, "shape"), T.sym("uninit"))


@ext("numpy.ones")
def np_ones(l, st, args, kw, node):
    return l.filled(st, arg(args, kw, 0, "shape"), ONE)


@ext("numpy.full")
def np_full(l, st, args, kw, node):
    n = l.I.num(st, args[1])
    if n is None:
        return l.I.opq("full")
    return l.filled(st, args[0], n[0], n[1])


def like(val, miss=ZERO):
    def f(l, st, args, kw, node):
        c = l.arrc(st, args[0])
        if c is None:
            return l.I.opq("like")
        return l.I.arr(st, c.dims, val, miss)
    return f


EXT["numpy.zeros_like"] = like(ZERO)
EXT["numpy.ones_like"] = like(ONE)
EXT["numpy.empty_like"] = like(ZERO)


@ext("numpy.full_like")
def np_full_like(l, st, args, kw, node):
    n = l.I.num(st, args[1])
    return like(*n)(l, st, args, kw, node) if n else l.I.opq("full_like")


@ext("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ascontiguousarray", "numpy.copy")
def np_array(l, st, args, kw, node):
    I = l.I
    v = args[0]
    p = I.lib_path.split(".")[-1]
    if isinstance(v, Ref) and p in ("asarray", "asanyarray", "ascontiguousarray") and isinstance(I.content(st, v), ArrC):
        return v
    if isinstance(v, PhiV):
        return I.phi(st, v.c, np_array(l, st, [v.a] + args[1:], kw, node), np_array(l, st, [v.b] + args[1:], kw, node))
    if isinstance(v, Opq):
        return Opq("array:" + str(v.tag))
    if isinstance(v, SeqV) and v.kind in ("map", "filter", "zip"):
        return I.opq("np.array of an iterator")
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(dt, Ext) and dt.path.split(".")[-1].startswith("float"):
        v = parse_text(l, st, v)
    c = l.arrc(st, v)
    if c is None:
        if ragged(l, st, v) and not (isinstance(dt, Ext) and dt.path.split(".")[-1].startswith("object")):
            raise_("ValueError", "setting an array element with a sequence: inhomogeneous shape")
        return I.opq("np.array")
    kind = c.kind
    if isinstance(dt, Ext) and dt.path.split(".")[-1].startswith("float"):
        kind = "num"
    elif isinstance(dt, Ext) and dt.path.split(".")[-1].startswith("int"):
        return I.arr(st, c.dims, c.val if kind in ("int", "bool") else T.app("trunc", c.val, integer=True), c.miss, "int")
    elif isinstance(dt, Ext) and dt.path.split(".")[-1].startswith("bool"):
        return I.arr(st, c.dims, c.val if kind == "bool" else T.or_(c.miss, ONE - T.eq0(c.val)), ZERO, "bool")
    dims = c.dims
    if not dims and p == "atleast_1d":
        dims = [Dim(())]
    return I.alloc(st, ArrC(dims, c.val, c.miss, kind))


def ragged(l, st, v):
    """a list of arrays or numbers of definitely different shapes"""
    segs = l.segs(st, v) if isinstance(v, (Ref, Tup, SeqV)) else None
    if segs is None or not l.plain(segs):
        return False
    shapes = set()
    for s in segs:
        c = l.arrc(st, s.val)
        if c is None or any(d.guard is not ONE for d in c.dims):
            return False
        sh = tuple(d.size().cval if d.size().is_const else None for d in c.dims)
        if None in sh:
            return False
        shapes.add(sh)
    return len(shapes) > 1


@ext("numpy.eye", "numpy.identity")
def np_eye(l, st, args, kw, node):
    n = l.I.term(st, args[0])
    a, b = Var("i", n), Var("j", n)
    return l.I.arr(st, [Dim([a]), Dim([b])], T.eq(a, b))


EXT["numpy.tile"] = lambda l, st, a, k, n: l.tile(st, a[0], arg(a, k, 1, "reps"))
EXT["numpy.repeat"] = lambda l, st, a, k, n: l.repeat(st, a[0], arg(a, k, 1, "repeats"), dict(k, **({"axis": a[2]} if len(a) > 2 else {})))
EXT["numpy.reshape"] = lambda l, st, a, k, n: l.reshape(st, a[0], arg(a, k, 1, "newshape"))
EXT["numpy.ravel"] = lambda l, st, a, k, n: l.ravel(st, a[0])


@ext("numpy.transpose")
def np_transpose(l, st, args, kw, node):
    ax = arg(args, kw, 1, "axes")
    if isnone(ax):
        return l.transpose(st, args[0])
    s = l.shape_arg(st, ax)
    return l.transpose(st, args[0], [int(x.cval) for x in s])


@ext("numpy.swapaxes")
def np_swapaxes(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    if c is None:
        return l.I.opq("swapaxes")
    a, b = args[1].v % len(c.dims), args[2].v % len(c.dims)
    o = list(range(len(c.dims)))
    o[a], o[b] = o[b], o[a]
    return l.transpose(st, args[0], o)


def stacker(axis, new):
    def f(l, st, args, kw, node):
        I = l.I
        ax = axis
        if axis is None:
            a = arg(args, kw, 1, "axis", K(0))
            ax = kval(a)
        segs = l.segs(st, args[0])
        if segs is None or ax is None:
            return I.opq("stack")
        segs = l.expand(segs)
        if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].vars:
            # symbolic number of blocks
            s = segs[0]
            c = l.arrc(st, s.val)
            if c is None:
                return I.opq("stack")
            if new:
                dims = list(c.dims)
                dims.insert(ax if ax >= 0 else len(dims) + 1 + ax, Dim(s.vars, s.guard))
                return I.arr(st, dims, c.val, c.miss, c.kind)
            if not c.dims:
                return I.arr(st, [Dim(s.vars, s.guard)], c.val, c.miss, c.kind)
            a2 = ax
            if I.lib_path == "numpy.hstack" and len(c.dims) == 1:
                a2 = 0
            if I.lib_path == "numpy.vstack" and len(c.dims) == 1:
                return I.arr(st, [Dim(s.vars, s.guard)] + c.dims, c.val, c.miss, c.kind)
            if any(set(d.size().free) & set(s.vars) for d in c.dims):
                return I.opq("ragged stack")
            dims = list(c.dims)
            d = dims[a2]
            dims[a2] = Dim(list(s.vars) + list(d.vars), T.mul(s.guard, d.guard))
            return I.arr(st, dims, c.val, c.miss, c.kind)
        if not l.plain(segs):
            return I.opq("stack")
        cs = [l.arrc(st, s.val) for s in segs]
        if any(c is None for c in cs):
            return I.opq("stack")
        if new:
            n = len(cs[0].dims)
            p = ax if ax >= 0 else n + 1 + ax
            cs = [ArrC(c.dims[:p] + [Dim(())] + c.dims[p:], c.val, c.miss, c.kind) for c in cs]
            ax2 = p
        else:
            ax2 = ax
            if I.lib_path == "numpy.hstack":
                ax2 = 0 if len(cs[0].dims) <= 1 else 1
                cs = [ArrC([Dim(())], c.val, c.miss, c.kind) if not c.dims else c for c in cs]
            if I.lib_path == "numpy.vstack":
                cs = [ArrC([Dim(())] + c.dims, c.val, c.miss, c.kind) if len(c.dims) == 1 else c for c in cs]
        r = l.concat(cs, ax2)
        return I.alloc(st, r) if r is not None else I.opq("concat")
    return f


EXT["numpy.hstack"] = stacker(1, False)
EXT["numpy.vstack"] = stacker(0, False)
EXT["numpy.concatenate"] = stacker(None, False)
EXT["numpy.stack"] = stacker(None, True)
EXT["numpy.dstack"] = stacker(2, True)


@ext("numpy.column_stack")
def np_column_stack(l, st, args, kw, node):
    I = l.I
    segs = l.segs(st, args[0])
    if segs is None or not l.plain(segs):
        return I.opq("column_stack")
    cs = [l.arrc(st, s.val) for s in segs]
    if any(c is None or not 1 <= len(c.dims) <= 2 for c in cs):
        return I.opq("column_stack")
    r = l.concat([ArrC(c.dims + [Dim(())], c.val, c.miss, c.kind) if len(c.dims) == 1 else c for c in cs], 1)
    return I.alloc(st, r) if r is not None else I.opq("concat")


@ext("numpy.append")
def np_append(l, st, args, kw, node):
    a, b = l.ravel(st, args[0]), l.ravel(st, args[1])
    ca, cb = l.arrc(st, a), l.arrc(st, b)
    if ca is None or cb is None:
        return l.I.opq("append")
    cb = cb if cb.dims else ArrC([Dim(())], cb.val, cb.miss, cb.kind)
    r = l.concat([ca, cb], 0)
    return l.I.alloc(st, r) if r is not None else l.I.opq("append")


@ext("numpy.expand_dims")
def np_expand(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    ax = kval(arg(args, kw, 1, "axis"))
    if c is None or ax is None:
        return l.I.opq("expand_dims")
    p = ax if ax >= 0 else len(c.dims) + 1 + ax
    return l.I.arr(st, c.dims[:p] + [Dim(())] + c.dims[p:], c.val, c.miss, c.kind)


@ext("numpy.squeeze")
def np_squeeze(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    if c is None:
        return l.I.opq("squeeze")
    return l.I.arr(st, [d for d in c.dims if d.vars], c.val, c.miss, c.kind)


@ext("numpy.shape")
def np_shape(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    if c is None:
        return l.I.opq("shape")
    return Tup([l.I.simp(N(d.size(), ZERO, "int")) for d in c.dims])


@ext("numpy.ndim")
def np_ndim(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    return K(len(c.dims)) if c is not None else l.I.opq("ndim")


@ext("numpy.size")
def np_size(l, st, args, kw, node):
    c = l.arrc(st, args[0])
    if c is None:
        return l.I.opq("size")
    ax = arg(args, kw, 1, "axis")
    ds = c.dims if isnone(ax) else [c.dims[kval(ax)]]
    r = ONE
    for d in ds:
        r = T.mul(r, d.size())
    return l.I.simp(N(r, ZERO, "int"))


@ext("numpy.isscalar")
def np_isscalar(l, st, args, kw, node):
    v = args[0]
    if isinstance(v, PhiV):
        return l.I.phi(st, v.c, np_isscalar(l, st, [v.a], kw, node), np_isscalar(l, st, [v.b], kw, node))
    if isinstance(v, (K,)):
        return K(isinstance(v.v, (int, float, str)) and v.v is not None)
    if isinstance(v, N):
        if v.kind != "any":
            return K(True)
        return N(T.app("isscalar", v.val, boolean=True), ZERO, "bool")
    if isinstance(v, Opq):
        return N(T.app("truth", v.poly(), boolean=True), ZERO, "bool")
    return K(False)


@ext("numpy.diag", "numpy.diagonal")
def np_diag(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None:
        return I.opq("diag")
    if len(c.dims) == 1 and I.lib_path == "numpy.diag":
        d = c.dims[0]
        if d.guard is not ONE:
            return I.opq("diag")
        if not d.vars:
            return I.arr(st, [Dim(()), Dim(())], c.val, c.miss)
        w = Var("j", d.size())
        mp = I.split_flat(T.idx(w), list(d.vars))
        ed = T.eq(d.flat(), w)
        return I.arr(st, [d, Dim([w])], T.mul(ed, c.val), T.mul(ed, c.miss))
    if len(c.dims) == 2:
        d, e = c.dims
        if e.guard is not ONE or d.guard is not ONE:
            return I.opq("diag")
        if not d.vars:
            return I.arr(st, [d], T.subst(c.val, {v: ZERO for v in e.vars}), c.miss)
        mp = I.split_flat(d.flat(), list(e.vars))
        return I.arr(st, [d], T.subst(c.val, mp), T.subst(c.miss, mp))
    return I.opq("diag")


@ext("numpy.dot", "numpy.matmul", "numpy.inner")
def np_dot(l, st, args, kw, node):
    return l.matmul(st, args[0], args[1])


@ext("numpy.outer")
def np_outer(l, st, args, kw, node):
    a, b = l.arrc(st, args[0]), l.arrc(st, args[1])
    if a is None or b is None:
        return l.I.opq("outer")
    x = l.I.alloc(st, ArrC(a.dims + [Dim(())], a.val, a.miss, a.kind))
    return l.binop(st, "Mult", x, args[1])


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div")):
    def _outer(l, st, args, kw, node, _o=_o):
        a, b = l.arrc(st, args[0]), l.arrc(st, args[1])
        if a is None or b is None:
            return l.I.opq("outer")
        x = l.I.alloc(st, ArrC(a.dims + [Dim(())] * len(b.dims), a.val, a.miss, a.kind))
        return l.binop(st, _o, x, args[1])
    EXT["numpy.%s.outer" % _n] = _outer


@ext("numpy.trace")
def np_trace(l, st, args, kw, node):
    l.I.lib_path = "numpy.diagonal"
    return l.reduce(st, "sum", np_diag(l, st, args, kw, node), {})


# ================================================================= reductions
for _n in ("sum", "mean", "std", "var", "min", "max", "amin", "amax", "any", "all", "prod", "median",
           "nansum", "nanmean", "nanstd", "nanvar", "nanmin", "nanmax", "nanmedian", "nanprod", "argmax", "argmin", "cumsum"):
    EXT["numpy." + _n] = (lambda nm: lambda l, st, a, k, n: l.reduce(st, nm, a[0], k, a[1:]))(_n)


@ext("numpy.count_nonzero")
def np_cnz(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None:
        return I.opq("count_nonzero")
    b = c.val if c.kind == "bool" else T.or_(c.miss, ONE - T.eq0(c.val))
    r = I.arr(st, c.dims, b, ZERO, "int")
    return l.reduce(st, "sum", r, kw, args[1:])


@ext("numpy.average")
def np_average(l, st, args, kw, node):
    w = arg(args, kw, 2, "weights")
    ax = {"axis": arg(args, kw, 1, "axis", K(None))}
    if isnone(w):
        return l.reduce(st, "mean", args[0], ax)
    num = l.reduce(st, "sum", l.binop(st, "Mult", args[0], w), ax)
    wb = l.binop(st, "Mult", l.binop(st, "Add", l.binop(st, "Mult", args[0], K(0)), K(1)), w)
    return l.binop(st, "Div", num, l.reduce(st, "sum", wb, ax))


EXT["numpy.percentile"] = lambda l, st, a, k, n: l.percentile(st, a[0], arg(a, k, 1, "q"), k, False)
EXT["numpy.nanpercentile"] = lambda l, st, a, k, n: l.percentile(st, a[0], arg(a, k, 1, "q"), k, True)


def _quant(nan):
    def f(l, st, a, k, n):
        return l.percentile(st, a[0], l.binop(st, "Mult", arg(a, k, 1, "q"), K(100)), k, nan)
    return f


EXT["numpy.quantile"] = _quant(False)
EXT["numpy.nanquantile"] = _quant(True)


@ext("numpy.unique")
def np_unique(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None or kw:
        return I.opq("unique")
    vs = [v for d in c.dims for v in d.vars]
    g = ONE
    for d in c.dims:
        g = T.mul(g, d.guard)
    n = T.red("ndistinct", vs, c.val, g, symmetric=True)
    k = Var("k", n)
    return I.arr(st, [Dim([k])], T.red("usorted", vs, c.val, g, T.idx(k), symmetric=True), ZERO, c.kind)


@ext("numpy.sort")
def np_sort(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None or len(c.dims) != 1:
        return I.opq("sort")
    d = c.dims[0]
    k = Var("k", d.size())
    return I.arr(st, [Dim([k])], T.red("sorted", list(d.vars), c.val, d.guard, T.idx(k), symmetric=True), ZERO, c.kind)


@ext("scipy.linalg.norm", "numpy.linalg.norm")
def la_norm(l, st, args, kw, node):
    I = l.I
    if isinstance(args[0], K) and isinstance(args[0].v, (int, float)):
        return K(abs(float(args[0].v)))
    if isinstance(args[0], N):
        return l.ew(st, lambda x: T.power(T.power(x, 2), Fraction(1, 2)), [args[0]])
    c = l.arrc(st, args[0])
    if c is None:
        return I.opq("norm")
    ordv = arg(args, kw, 1, "ord")
    if not isnone(ordv) and kval(ordv) != 2:
        return I.opq("norm ord")
    sq = I.arr(st, c.dims, T.power(c.val, 2), c.miss)
    s = l.reduce(st, "sum", sq, {k: v for k, v in kw.items() if k == "axis"})
    return l.ew(st, lambda x: T.power(x, Fraction(1, 2)), [s])


@ext("scipy.linalg.pinv", "numpy.linalg.pinv", "scipy.linalg.inv", "numpy.linalg.inv")
def la_pinv(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None or len(c.dims) != 2 or any(d.guard is not ONE for d in c.dims):
        return I.opq("pinv")
    # canonical flat index of the matrix
    n, m = c.dims[0].size(), c.dims[1].size()
    a, b = Var("a", n), Var("b", m)
    mp = dict(I.split_flat(T.idx(a), list(c.dims[0].vars)))
    mp.update(I.split_flat(T.idx(b), list(c.dims[1].vars)))
    body = T.subst(c.val, mp)
    i, j = Var("i", m), Var("j", n)
    nm = I.lib_path.split(".")[-1]
    val = T.red(nm, [a, b], body, T.idx(i), T.idx(j))
    return I.arr(st, [Dim([i]), Dim([j])], val)


@ext("numpy.linalg.lstsq")
def la_lstsq(l, st, args, kw, node):
    I = l.I
    c, y = l.arrc(st, args[0]), l.arrc(st, args[1])
    rc = arg(args, kw, 2, "rcond", K(None))
    if c is None or y is None or len(c.dims) != 2 or len(y.dims) != 1 or any(d.guard is not ONE for d in c.dims + y.dims):
        return I.opq("lstsq")
    if not isinstance(rc, K) or rc.v is not None and 1e-9 < rc.v < 1:       # gelsd: a cut-off outside (0, 1) is the machine precision
        return I.opq("lstsq with a cut-off")
    a, b = Var("a", c.dims[0].size()), Var("b", c.dims[1].size())
    mp = dict(I.split_flat(T.idx(a), list(c.dims[0].vars)))
    mp.update(I.split_flat(T.idx(b), list(c.dims[1].vars)))
    yv = T.subst(y.val, I.split_flat(T.idx(a), list(y.dims[0].vars)))
    i = Var("i", c.dims[1].size())
    val = T.red("lstsq", [a, b], T.subst(c.val, mp), yv, T.idx(i))
    return Tup([I.arr(st, [Dim([i])], val), Opq("resid"), Opq("rank"), Opq("sv")])


@ext("numpy.vectorize")
def np_vectorize(l, st, args, kw, node):
    return I_vec(args[0])


class VecFn(Val):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


def I_vec(fn):
    return Partial(Ext("sa.vectorized"), [fn], {})


@ext("sa.vectorized")
def vec_call(l, st, args, kw, node):
    I = l.I
    fn, vals = args[0], args[1:]
    arrs = [l.arrc(st, v) for v in vals]
    if any(a is None for a in arrs):
        return I.opq("vectorize")
    try:
        dims, vm = l.broadcast(arrs)
    except L.Mismatch as m:
        return l.shape_error(st, arrs, str(m))
    lv = [v for d in dims for v in d.vars]
    I.loopvars.extend(lv)
    try:
        r = I.call(st, fn, [I.simp(N(v, m)) for v, m in vm], kw, node)
    finally:
        if lv:
            del I.loopvars[len(I.loopvars) - len(lv):]
    n = I.num(st, r)
    if n is None:
        return I.opq("vectorize result")
    if not dims:
        return I.simp(N(n[0], n[1]))
    return I.arr(st, dims, n[0], n[1])


@ext("numpy.apply_along_axis")
def np_aaa(l, st, args, kw, node):
    I = l.I
    fn, axis, arr = arg(args, kw, 0, "func1d"), arg(args, kw, 1, "axis"), arg(args, kw, 2, "arr")
    c = l.arrc(st, arr)
    ax = kval(axis)
    if c is None or ax is None:
        return I.opq("apply_along_axis")
    ax %= len(c.dims)
    rest = [d for i, d in enumerate(c.dims) if i != ax]
    lv = [v for d in rest for v in d.vars]
    I.loopvars.extend(lv)
    try:
        row = I.arr(st, [c.dims[ax]], c.val, c.miss, c.kind)
        r = I.call(st, fn, [row], {}, node)
    finally:
        if lv:
            del I.loopvars[len(I.loopvars) - len(lv):]
    rc = l.arrc(st, r)
    if rc is None:
        return I.opq("apply_along_axis")
    dims = rest[:ax] + rc.dims + rest[ax:]
    return I.arr(st, dims, rc.val, rc.miss, rc.kind)


@ext("numpy.errstate", "warnings.catch_warnings", "warnings.simplefilter", "warnings.warn", "numpy.seterr", "warnings.filterwarnings")
def np_ctx(l, st, args, kw, node):
    return K(None)


# ================================================================= scipy.stats
def gauss(x, mu, s):
    z = (x - mu) / s
    return T.fn("exp", -T.power(z, 2) / 2) / (s * T.power(2 * T.sym("pi", pos=True), Fraction(1, 2)))


def loc_scale(args, kw, i=1):
    return [args[0], arg(args, kw, i, "loc", K(0)), arg(args, kw, i + 1, "scale", K(1))]


EXT["scipy.stats.norm.pdf"] = lambda l, st, a, k, n: l.ew(st, gauss, loc_scale(a, k))
EXT["scipy.stats.norm.cdf"] = lambda l, st, a, k, n: l.ew(st, lambda x, m, s: T.fn("normcdf", (x - m) / s), loc_scale(a, k))
EXT["scipy.stats.norm.ppf"] = lambda l, st, a, k, n: l.ew(st, lambda x, m, s: m + s * T.fn("normppf", x), loc_scale(a, k))
EXT["scipy.stats.norm.logpdf"] = lambda l, st, a, k, n: l.ew(st, lambda x, m, s: T.fn("log", gauss(x, m, s)), loc_scale(a, k))
EXT["scipy.stats.logistic.pdf"] = lambda l, st, a, k, n: l.ew(
    st, lambda x, m, s: T.fn("exp", -(x - m) / s) / (s * T.power(1 + T.fn("exp", -(x - m) / s), 2)), loc_scale(a, k))
EXT["scipy.stats.chi2.ppf"] = lambda l, st, a, k, n: l.ew(st, lambda q, d: T.app("chi2ppf", q, d, pos=True), [a[0], arg(a, k, 1, "df")])
EXT["scipy.stats.chi2.cdf"] = lambda l, st, a, k, n: l.ew(st, lambda q, d: T.app("chi2cdf", q, d, nonneg=True), [a[0], arg(a, k, 1, "df")])


@ext("scipy.stats.kurtosis")
def st_kurtosis(l, st, args, kw, node):
    I = l.I
    c = l.arrc(st, args[0])
    if c is None:
        return I.opq("kurtosis")
    ax = l.axes_of(st, c, arg(args, kw, 1, "axis", K(0)))
    fisher = kval(arg(args, kw, 2, "fisher", K(True)), None)
    bias = kval(arg(args, kw, 3, "bias", K(True)), None)
    pol = kval(kw.get("nan_policy", K("propagate")), "propagate")
    if ax is None or fisher is None or bias is not True:
        return I.opq("kurtosis args")
    vs = [x for i in ax for x in c.dims[i].vars]
    g = ONE
    for i in ax:
        g = T.mul(g, c.dims[i].guard)
    dims = [d for i, d in enumerate(c.dims) if i not in ax]
    miss = ZERO
    w = g
    if c.miss is not ZERO:
        if pol == "omit":
            w = T.mul(g, ONE - c.miss)
        else:
            miss = T.any_(vs, T.mul(g, c.miss))
    n = T.ssum(vs, w)
    # raw moments: invariant under how the centring is written
    val = T.red("kurt", vs, c.val, w, symmetric=True)
    val = val - (3 if fisher else 0)
    return I.arr(st, dims, val, miss) if dims else I.simp(N(val, miss))


def corr(name):
    def f(l, st, args, kw, node):
        I = l.I
        nm = name
        for x in args[:2]:
            if l.arrc(st, x) is None and ragged(l, st, x):
                raise_("ValueError", "inhomogeneous shape")
        a, b = l.arrc(st, args[0]), l.arrc(st, args[1])
        ks = {k: kval(v, None) for k, v in kw.items() if not (isinstance(v, K) and v.v is None)}
        if ks.pop("variant", "b") == "c":
            nm = "kendallc"
        if ks.get("nan_policy") == "propagate" or name == "kendall" and ks.get("method") in ("auto", "asymptotic", "exact"):
            ks = {k: v for k, v in ks.items() if k not in ("nan_policy", "method")}
        ks.pop("alternative", None)
        if a is None or b is None or ks or len(args) > 2:
            return I.opq(name)
        try:
            dims, vm = l.broadcast([a, b])
        except L.Mismatch as m:
            return l.shape_error(st, [a, b], str(m))
        vs = [v for d in dims for v in d.vars]
        g = ONE
        for d in dims:
            g = T.mul(g, d.guard)
        miss = T.or_(vm[0][1], vm[1][1])
        r = T.red(nm, vs, vm[0][0], vm[1][0], g, symmetric=True)
        m = T.any_(vs, miss, g) if miss is not ZERO else ZERO
        return NTup([N(r, m), N(T.red(name + "_p", vs, vm[0][0], vm[1][0], g, symmetric=True), m)], {"statistic": 0, "correlation": 0, "pvalue": 1})
    return f


@ext("numpy.corrcoef")
def np_corrcoef(l, st, args, kw, node):
    if len(args) != 2 or kw:
        return l.I.opq("corrcoef")
    a, b = l.arrc(st, args[0]), l.arrc(st, args[1])
    if a is None or b is None or len(a.dims) != 1 or len(b.dims) != 1:
        return l.I.opq("corrcoef")
    r = corr("pearson")(l, st, args, {}, node)
    if not isinstance(r, Tup):
        return r
    r = r.items[0]
    i, j = Var("i", T.const(2)), Var("j", T.const(2))
    d = T.eq(i, j)
    return l.I.arr(st, [Dim([i]), Dim([j])], d + T.mul(ONE - d, r.val), r.miss)


@ext("scipy.stats.rankdata")
def st_rankdata(l, st, args, kw, node):
    I = l.I
    how = kval(arg(args, kw, 1, "method", K("average")), None)
    c = l.arrc(st, args[0])
    if c is None or len(c.dims) != 1 or T.mul(c.dims[0].guard, c.miss) is not ZERO or how not in ("average", "min", "max", "ordinal") or set(kw) - {"method"}:
        return I.opq("rankdata")
    d = c.dims[0]
    mp = {v: Var("r", v.size) for v in d.vars}
    mine = T.subst(c.val, {v: T.idx(w) for v, w in mp.items()})
    ws = list(d.vars)
    g = d.guard
    g2 = T.subst(g, {v: T.idx(w) for v, w in mp.items()})
    less = T.ssum(ws, T.mul(g, T.gt0(mine - c.val)))
    same = T.ssum(ws, T.mul(g, T.eq0(mine - c.val)))
    if how == "ordinal":
        if len(d.vars) != 1:
            return I.opq("rankdata")
        v = d.vars[0]
        before = T.ssum(ws, T.mul(g, T.mul(T.eq0(mine - c.val), T.gt0(T.idx(mp[v]) - T.idx(v)))))
        same = before
    val = less + (T.const(1) if how == "min" else same + 1 if how == "ordinal" else same if how == "max" else (same + 1) * T.const(Fraction(1, 2)))
    return I.arr(st, [Dim([mp[v] for v in d.vars], g2)] if g2 is not ONE else [Dim([mp[v] for v in d.vars])], val)


EXT["scipy.stats.pearsonr"] = corr("pearson")
EXT["scipy.stats.spearmanr"] = corr("spearman")
EXT["scipy.stats.kendalltau"] = corr("kendall")


@ext("scipy.optimize.minimize")
def so_minimize(l, st, args, kw, node):
    I = l.I
    fun, x0 = arg(args, kw, 0, "fun"), arg(args, kw, 1, "x0")
    c = l.arrc(st, x0)
    extra = kw.get("args")
    ex = list(extra.items) if isinstance(extra, Tup) else ([extra] if extra is not None else [])
    if c is None or len(c.dims) != 1 or c.dims[0].guard is not ONE:
        return I.opq("minimize")
    v = Var("o", c.dims[0].size())
    s2 = st.copy()
    xs = I.alloc(s2, ArrC([Dim([v])], T.app("optvar", T.idx(v))))
    r = I.call(s2, fun, [xs] + ex, {}, node)
    o = I.term(s2, r)
    I.event(st, "minimize", o, kw)
    res = I.arr(st, [Dim([v])], T.app("argmin", o, T.idx(v)))
    return I.alloc(st, InstC(Ext("object"), {"x": res, "fun": N(T.app("minval", o)), "success": N(T.app("optok", o, boolean=True), ZERO, "bool"),
                                             "hess_inv": Opq("hess_inv"), "message": Opq("message"), "nit": Opq("nit")}))


# ================================================================= random
def draw(I):
    """the next draw of the generator the current call uses: (stream seed, position)"""
    fam = "numpy" if I.lib_path.startswith("numpy") else "py"
    n = I.rnd.get("n:" + fam, 0)
    I.rnd["n:" + fam] = n + 1
    return [I.rnd.get("epoch:" + fam) or T.sym("entropy"), T.const(n)]


def rnd(name, sized, affine=None):
    """draw in normal form: location + scale * standard draw"""
    def f(l, st, args, kw, node):
        I = l.I
        I.event(st, "random", I.lib_path)
        key = I.lib_path
        size = kw.get("size")
        base = [arg(args, kw, i, nm) for i, nm in enumerate(sized)]
        if size is None and len(args) > len(sized):
            size = args[len(sized)] if key not in ("numpy.random.rand", "numpy.random.randn") else Tup(list(args))
        tag = ("rnd:" + affine) if affine else "rnd:" + key
        extra = [] if affine else [I.term(st, a) for a in base if a is not None and not isinstance(a, Ref)]
        lvs = draw(I) + extra + [T.idx(v) for v in I.loopvars]
        fl = dict(nonneg=True) if affine == "uniform" else {}
        if isnone(size):
            arrs = [l.arrc(st, a) for a in base if isinstance(a, Ref)]
            if arrs and affine:
                dims = arrs[0].dims
                lv = lvs + [T.idx(v) for d in dims for v in d.vars]
                r = I.arr(st, list(dims), T.app(tag, *lv, **fl))
            else:
                r = I.simp(N(T.app(tag, *lvs, **fl), ZERO, "num"))
        else:
            sz = l.shape_arg(st, size)
            if sz is None:
                return I.opq("random size")
            dims = l.mkdims(sz)
            own = [T.idx(v) for d in dims for v in d.vars]
            r = I.arr(st, dims, T.app(tag, *(lvs + own), **fl))
        if not affine:
            return r
        lo = base[0] if len(base) > 0 and base[0] is not None else K(0)
        hi = base[1] if len(base) > 1 and base[1] is not None else K(1)
        if affine == "uniform":
            if isinstance(lo, K) and isinstance(hi, K) and lo.v == 0 and hi.v == 1:
                return r
            hi = l.binop(st, "Sub", hi, lo)
            if hi is None:
                return I.opq("uniform bounds")
        if not (isinstance(hi, K) and hi.v == 1):
            r = l.binop(st, "Mult", hi, r)
        if not (isinstance(lo, K) and lo.v == 0):
            r = l.binop(st, "Add", lo, r)
        return r
    return f


for _n, _s, _a in (("numpy.random.uniform", ("low", "high"), "uniform"), ("numpy.random.normal", ("loc", "scale"), "normal"), ("numpy.random.logistic", ("loc", "scale"), "logistic"),
                   ("numpy.random.rand", (), "uniform"), ("numpy.random.randn", (), "normal"), ("numpy.random.random", (), "uniform"), ("numpy.random.random_sample", (), "uniform"),
                   ("numpy.random.standard_normal", (), "normal"), ("numpy.random.randint", ("low", "high"), None),
                   ("random.random", (), "uniform"), ("random.gauss", ("mu", "sigma"), "normal"), ("random.normalvariate", ("mu", "sigma"), "normal2"), ("random.uniform", ("a", "b"), "uniform"), ("random.randint", ("a", "b"), None)):
    EXT[_n] = rnd(_n, _s, _a)


@ext("numpy.random.choice", "numpy.random.permutation", "random.sample", "random.choice")
def np_choice(l, st, args, kw, node):
    I = l.I
    I.event(st, "random", I.lib_path)
    key = I.lib_path
    ep, n = draw(I)
    size = arg(args, kw, 1, "size") if "permutation" not in key else None
    v = args[0]
    lvs = [ep] + [T.idx(x) for x in I.loopvars]
    if isinstance(v, (K, N)):
        t = I.term(st, v)
        rep = kval(kw.get("replace", args[2] if len(args) > 2 else K(True)), None)
        tag = "rnd:%s:%s" % (key, rep)
        if isnone(size) and "permutation" not in key:
            return N(T.app(tag, n, t, *lvs, nonneg=True, integer=True), ZERO, "int")
        sz = l.shape_arg(st, size) if not isnone(size) else [t]
        if sz is None:
            return I.opq("choice")
        dims = l.mkdims(sz)
        return I.arr(st, dims, T.app(tag, n, t, *(lvs + [T.idx(x) for d in dims for x in d.vars]), nonneg=True, integer=True), ZERO, "int")
    segs = l.segs(st, v)
    if segs is None:
        return I.opq("choice")
    nn = I.seq_len(segs)
    if nn is None:
        return I.opq("choice")
    if isnone(size) and "permutation" not in key and "sample" not in key:
        i = T.app("rnd:" + key, n, nn, *lvs, nonneg=True, integer=True)
        return l.seq_at(st, segs, i)
    sz = l.shape_arg(st, size) if not isnone(size) else [nn]
    dims = l.mkdims(sz)
    if len(dims) != 1 or not dims[0].vars:
        return I.opq("choice")
    rep = kval(kw.get("replace", args[2] if len(args) > 2 else K(True)), None)
    i = T.app("rnd:%s:%s" % (key, rep), n, nn, *(lvs + [T.idx(dims[0].vars[0])]), nonneg=True, integer=True)
    e = l.seq_at(st, segs, i)
    return I.alloc(st, ListC([Seg(dims[0].vars, ONE, e)]))


@ext("numpy.random.shuffle", "random.shuffle")
def np_shuffle(l, st, args, kw, node):
    I = l.I
    I.event(st, "random", I.lib_path)
    v = args[0]
    if isinstance(v, Ref) and not v.sub and isinstance(st.heap.get(v.loc), ArrC):
        import ast
        c = st.heap[v.loc]
        d = c.dims[0] if c.dims else None
        ep, k = draw(I)
        if d is not None and len(d.vars) == 1 and d.guard is ONE:
            w = d.vars[0]
            t = T.app("rnd:perm", ep, k, d.size(), *([T.idx(x) for x in I.loopvars] + [T.idx(w)]), nonneg=True, integer=True)
            nc = ArrC(c.dims, T.subst(c.val, {w: t}), T.subst(c.miss, {w: t}), c.kind)
            if c.base is None:
                I.mark_write(st, v, "shuffle")
                st.heap[v.loc] = nc
                return K(None)
            if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Subscript):
                o, ix = I.sub_target(node.args[0], st)
                l.setitem(st, o, ix, I.alloc(st, nc))
                return K(None)
        I.mark_write(st, v, "shuffle")
        st.heap[v.loc] = I.opaque_content(c)
        return K(None)
    if isinstance(v, Ref):
        I.mark_write(st, v, "shuffle")
        segs = l.segs(st, v)
        n = I.seq_len(segs) if segs is not None else None
        if n is not None:
            ep, c = draw(I)
            w = Var("k", n)
            e = l.seq_at(st, segs, T.app("rnd:perm", ep, c, n, *([T.idx(x) for x in I.loopvars] + [T.idx(w)]), nonneg=True, integer=True))
            cc = I.content(st, v)
            if isinstance(cc, ListC) and not v.sub:
                st.heap[v.loc] = ListC([Seg((w,), ONE, e)])
            elif not v.sub:
                st.heap[v.loc] = I.opaque_content(cc)
    return K(None)


@ext("numpy.random.seed", "random.seed", "numpy.random.default_rng", "numpy.random.RandomState")
def np_seed(l, st, args, kw, node):
    I = l.I
    I.event(st, "seed", I.lib_path, I.term(st, args[0]) if args else None)
    if "seed" in I.lib_path:
        fam = "numpy" if I.lib_path.startswith("numpy") else "py"
        I.rnd["n:" + fam] = 0
        t = T.sym("entropy") if not args or isnone(args[0]) else I.term(st, args[0])
        I.rnd["epoch:" + fam] = T.sym("entropy") if t.opaque else t
    return K(None) if "seed" in I.lib_path else Opq("rng")


# ================================================================= pandas
@ext("pandas.DataFrame", "pandas.Series")
def pd_df(l, st, args, kw, node):
    I = l.I
    v = args[0] if args else kw.get("data")
    c = l.arrc(st, v) if not isinstance(v, Opq) else None
    if c is None:
        return I.opq("DataFrame")
    if len(c.dims) == 1 and I.lib_path == "pandas.DataFrame":
        c = ArrC(c.dims + [Dim(())], c.val, c.miss, c.kind)
    d = I.alloc(st, ArrC(c.dims, c.val, c.miss, c.kind))
    return I.alloc(st, InstC(Ext(I.lib_path), {"data": d}))


def pd_red(name):
    def f(l, st, recv, args, kw):
        I = l.I
        c = I.content(st, recv)
        sk = kval(kw.get("skipna", K(True)))
        kw = {k: v for k, v in kw.items() if k not in ("skipna", "numeric_only")}
        if len(args) and "axis" not in kw:
            kw["axis"] = args[0]
        if "axis" not in kw or isnone(kw["axis"]):
            kw["axis"] = K(0)
        if name in ("std", "var") and "ddof" not in kw:
            kw["ddof"] = K(1)
        return l.reduce(st, ("nan" if sk else "") + name, c.attrs["data"], kw)
    return f


for _p in ("pandas.DataFrame", "pandas.Series"):
    for _n in ("mean", "sum", "std", "var", "min", "max", "median"):
        L.METH_INST[(_p, _n)] = pd_red(_n)
    L.METH_INST[(_p, "to_numpy")] = lambda l, st, r, a, k: l.shallow(st, l.I.content(st, r).attrs["data"])
    L.METH_INST[(_p, "count")] = lambda l, st, r, a, k: l.reduce(
        st, "sum", l.unop(st, "Invert", np_isnan(l, st, [l.I.content(st, r).attrs["data"]], {}, None)), {"axis": k.get("axis", a[0] if a else K(0))})

# files
for _n in ("write", "writelines", "flush", "close"):
    L.METH_INST[("file", _n)] = (lambda nm: lambda l, st, r, a, k: (l.I.event(st, "effect", "file." + nm, (l.I.content(st, r).attrs["path"],) + tuple(a), {}), K(None))[1])(_n)
for _n in ("read", "readlines", "readline"):
    L.METH_INST[("file", _n)] = lambda l, st, r, a, k: Opq("file content")


# ================================================================= array methods
for _n in ("sum", "mean", "std", "var", "min", "max", "any", "all", "prod"):
    L.METH_ARR[_n] = (lambda nm: lambda l, st, r, a, k: l.reduce(st, nm, r, k, a))(_n)


@meth(L.METH_ARR, "astype")
def a_astype(l, st, r, a, k):
    l.I.lib_path = "numpy.array"
    t = a[0] if a else k.get("dtype")
    return np_array(l, st, [r], {"dtype": t}, None)


L.METH_ARR["copy"] = lambda l, st, r, a, k: l.shallow(st, r)
L.METH_ARR["flatten"] = lambda l, st, r, a, k: l.ravel(st, r)
L.METH_ARR["ravel"] = lambda l, st, r, a, k: l.ravel(st, r)
L.METH_ARR["reshape"] = lambda l, st, r, a, k: l.reshape(st, r, a[0] if len(a) == 1 else Tup(a))
L.METH_ARR["transpose"] = lambda l, st, r, a, k: l.transpose(st, r, [x.v for x in (a[0].items if a and isinstance(a[0], Tup) else a)] or None)
L.METH_ARR["dot"] = lambda l, st, r, a, k: l.matmul(st, r, a[0])
L.METH_ARR["squeeze"] = lambda l, st, r, a, k: np_squeeze(l, st, [r], k, None)
L.METH_ARR["to_numpy"] = lambda l, st, r, a, k: l.shallow(st, r)
def a_item(l, st, r, a, k):
    c = l.I.content(st, r)
    if a:
        if len(a) == 1 and len(c.dims) > 1 and not isinstance(a[0], Tup):
            return l.getitem(st, l.ravel(st, r), a[0])
        return l.getitem(st, r, a[0] if len(a) == 1 else Tup(a))
    if c.dims and not all(d.size() is ONE for d in c.dims):
        return l.I.opq("item of an array")
    return l.I.simp(N(c.val, c.miss))


L.METH_ARR["item"] = a_item
L.METH_ARR["diagonal"] = lambda l, st, r, a, k: EXT["numpy.diagonal"](l, st, [r], {}, None)
L.METH_ARR["repeat"] = lambda l, st, r, a, k: l.repeat(st, r, a[0], k)
L.METH_ARR["clip"] = lambda l, st, r, a, k: np_clip(l, st, [r] + a, k, None)


@meth(L.METH_ARR, "fill")
def a_fill(l, st, r, a, k):
    I = l.I
    I.mark_write(st, r, ".fill")
    c = st.heap[r.loc]
    n = I.num(st, a[0])
    st.heap[r.loc] = ArrC(c.dims, n[0], n[1], c.kind, c.base) if n else I.opaque_content(c)
    return K(None)


@meth(L.METH_ARR, "tolist")
def a_tolist(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    return tolist(l, st, c)


def tolist(l, st, c):
    I = l.I
    if not c.dims:
        return I.simp(N(c.val, c.miss, c.kind))
    d = c.dims[0]
    if len(c.dims) == 1:
        e = I.simp(N(c.val, c.miss, c.kind))
    else:
        I.loopvars.extend(d.vars)
        try:
            e = tolist(l, st, ArrC(c.dims[1:], c.val, c.miss, c.kind))
        finally:
            if d.vars:
                del I.loopvars[len(I.loopvars) - len(d.vars):]
    return I.alloc(st, ListC([Seg(d.vars, d.guard, e)]))


# ================================================================= list methods
@meth(L.METH_LIST, "append", "add")
def m_append(l, st, r, a, k):
    v = a[0]
    l.list_write(st, r, lambda c: ListC(list(c.segs) + [Seg((), ONE, v)], c.kind), ".append")
    return K(None)


@meth(L.METH_LIST, "extend", "update")
def m_extend(l, st, r, a, k):
    l.list_extend(st, r, a[0])
    return K(None)


@meth(L.METH_LIST, "insert")
def m_insert(l, st, r, a, k):
    i = kval(a[0])

    def f(c):
        s = list(c.segs)
        if i == 0:
            return ListC([Seg((), ONE, a[1])] + s, c.kind)
        if l.plain(s) and i is not None:
            s.insert(i, Seg((), ONE, a[1]))
            return ListC(s, c.kind)
        l.I.note("list insert")
        return l.I.opaque_content(c)
    l.list_write(st, r, f, ".insert")
    return K(None)


@meth(L.METH_LIST, "pop")
def m_pop(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    i = kval(a[0], None) if a else -1
    if c.kind == "set":
        i = I.pick(len(c.segs)) if hasattr(I, "pick") and l.plain(c.segs) and c.segs else None
    I.mark_write(st, r, ".pop")
    if i is not None and not r.sub:
        segs = l.expand(c.segs)
        if l.plain(segs):
            if not segs:
                raise_("IndexError", "pop")
            v = segs[i].val
            s2 = list(segs)
            del s2[i]
            st.heap[r.loc] = ListC(s2, c.kind)
            return v
        if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].vars) == 1 and segs[0].guard is ONE and i in (0, -1):
            s = segs[0]
            v = s.vars[0]
            w = Var(v.name.split("#")[0], v.size - 1)
            e = I.sub_val(s.val, {v: ZERO if i == 0 else v.size - 1})
            st.heap[r.loc] = ListC([Seg((w,), ONE, I.sub_val(s.val, {v: T.idx(w) + (1 if i == 0 else 0)}))], c.kind)
            return e
    I.note("list pop")
    if not r.sub:
        st.heap[r.loc] = I.opaque_content(c)
    return Opq("pop")


def m_opaque_write(nm):
    def f(l, st, r, a, k):
        I = l.I
        I.mark_write(st, r, "." + nm)
        I.note("list " + nm)
        if not r.sub:
            st.heap[r.loc] = I.opaque_content(I.content(st, r))
        return K(None)
    return f


def m_remove(nm):
    def f(l, st, r, a, k):
        """removal of an element whose identity is decided"""
        I = l.I
        c = I.content(st, r)
        if not r.sub and l.plain(c.segs) and isinstance(a[0], (K, Ref)) and all(type(s.val) is type(a[0]) for s in c.segs):
            if isinstance(a[0], K) or all(isinstance(I.content(st, x), InstC) for x in [a[0]] + [s.val for s in c.segs]):
                same = [i for i, s in enumerate(c.segs) if (s.val.v == a[0].v if isinstance(a[0], K) else s.val.loc == a[0].loc and not s.val.sub and not a[0].sub)]
                I.mark_write(st, r, "." + nm)
                if not same:
                    if nm == "remove":
                        raise_("KeyError" if c.kind == "set" else "ValueError", "remove")
                    return K(None)
                gone = same if c.kind == "set" else same[:1]
                st.heap[r.loc] = ListC([s for i, s in enumerate(c.segs) if i not in gone], c.kind)
                return K(None)
        return m_opaque_write(nm)(l, st, r, a, k)
    return f


L.METH_LIST["remove"] = m_remove("remove")
L.METH_LIST["discard"] = m_remove("discard")


@meth(L.METH_LIST, "clear")
def m_clear(l, st, r, a, k):
    l.list_write(st, r, lambda c: ListC([], c.kind), ".clear")
    return K(None)


@meth(L.METH_LIST, "reverse")
def m_reverse(l, st, r, a, k):
    segs = l.segs(st, b_reversed(l, st, [r], {}, None)) if True else None
    l.list_write(st, r, lambda c: ListC(list(segs), c.kind), ".reverse")
    return K(None)


@meth(L.METH_LIST, "sort")
def m_sort(l, st, r, a, k):
    c = l.I.content(st, r)
    segs = sort_segs(l, st, l.expand(c.segs), k, False, None)
    l.list_write(st, r, lambda c: ListC(list(segs), c.kind), ".sort")
    return K(None)


L.METH_LIST["copy"] = lambda l, st, r, a, k: l.shallow(st, r)


@meth(L.METH_LIST, "index")
def m_index(l, st, r, a, k):
    return seq_index(l, st, l.segs(st, r), a[0])


def seq_index(l, st, segs, x):
    I = l.I
    segs = l.expand(segs)
    if l.plain(segs):
        if all(isinstance(s.val, K) for s in segs) and isinstance(x, K):
            for i, s in enumerate(segs):
                if s.val.v == x.v:
                    return K(i)
            raise_("ValueError", "index")
        r = T.const(len(segs))
        for i in range(len(segs) - 1, -1, -1):
            r = T.phi(l.equal(st, segs[i].val, x), T.const(i), r)
        return I.simp(N(r, ZERO, "int"))
    if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].vars) == 1:
        s = segs[0]
        v = s.vars[0]
        w = Var(v.name.split("#")[0], v.size)
        val = I.sub_val(s.val, {v: T.idx(w)})
        g = T.subst(s.guard, {v: T.idx(w)})
        if s.guard is ONE:
            sol = l.solve_key(st, val, x, [w])
            if sol is not None:
                return I.simp(N(sol[w], ZERO, "int"))
        m = T.mul(l.equal(st, val, x), g)
        u = Var("u", v.size)
        mu = T.subst(m, {w: T.idx(u)})
        first = T.mul(m, ONE - T.any_(u, T.mul(mu, T.lt(u, w))))
        rank = T.subst(l.rank(s), {v: T.idx(w)})
        return I.simp(N(T.ssum(w, T.mul(first, rank)), ZERO, "int"))
    return I.opq("index")


@meth(L.METH_LIST, "count")
def m_count(l, st, r, a, k):
    I = l.I
    segs = l.segs(st, r)
    tot = ZERO
    for s in segs:
        if isinstance(s, MuSeg):
            return I.opq("count")
        tot = tot + T.ssum(list(s.vars), l.equal(st, s.val, a[0]), s.guard)
    return I.simp(N(tot, ZERO, "int"))


@meth(L.METH_LIST, "union")
def m_union(l, st, r, a, k):
    segs = list(l.I.content(st, r).segs)
    for x in a:
        c = l.I.content(st, x) if isinstance(x, Ref) else None
        s = c.segs if isinstance(c, ListC) else l.segs(st, x)
        if s is None:
            return l.I.opq("union")
        segs += s
    return l.I.alloc(st, ListC(segs, "set"))


def set_op(keep_in):
    def f(l, st, r, a, k):
        I = l.I
        c = I.content(st, r)
        out = []
        for s in c.segs:
            if isinstance(s, MuSeg):
                return I.opq("set op")
            h = l.contains(st, a[0], s.val)
            g = T.mul(s.guard, h if keep_in else ONE - h)
            if g is not ZERO:
                out.append(Seg(s.vars, g, s.val))
        return I.alloc(st, ListC(out, "set"))
    return f


L.METH_LIST["intersection"] = set_op(True)
L.METH_LIST["difference"] = set_op(False)
L.METH_TUP["index"] = lambda l, st, r, a, k: seq_index(l, st, l.segs(st, r), a[0])
L.METH_TUP["count"] = m_count

# ================================================================= dict methods
for _n in ("keys", "values", "items"):
    def _f(nm):
        def f(l, st, r, a, k):
            c = l.I.content(st, r)
            s = l.dict_items(st, c, nm)
            return SeqV(s, "dict_" + nm) if s is not None else l.I.opq("dict." + nm)
        return f
    L.METH_DICT[_n] = _f(_n)
    L.METH_DICT["iter" + _n] = L.METH_DICT[_n]


@meth(L.METH_DICT, "get")
def d_get(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    d = a[1] if len(a) > 1 else K(None)
    p, v = l.dict_lookup(st, c, a[0])
    if v is None or p is ZERO:
        return d
    if p is ONE:
        return I.undef_strip(v)
    return I.phi(st, p, v, d)


@meth(L.METH_DICT, "setdefault")
def d_setdefault(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    d = a[1] if len(a) > 1 else K(None)
    p, v = l.dict_lookup(st, c, a[0])
    if p is ONE:
        return I.undef_strip(v)
    if v is None or p is ZERO:
        l.dict_set(st, r, a[0], d)
        return d
    nv = I.phi(st, p, v, d)
    l.dict_set(st, r, a[0], nv)
    return nv


@meth(L.METH_DICT, "update")
def d_update(l, st, r, a, k):
    if a:
        if isinstance(a[0], Ref) and isinstance(l.I.content(st, a[0]), DictC) or isinstance(a[0], ExtBound):
            l.dict_update(st, r, a[0])
        else:
            d = b_dict(l, st, [a[0]], {}, None)
            if isinstance(d, Opq):
                l.I.note("dict.update opaque")
                st.heap[r.loc] = l.I.opaque_content(DictC())
            else:
                l.dict_update(st, r, d)
    for x, v in k.items():
        l.dict_set(st, r, K(x), v)
    return K(None)


L.METH_DICT["copy"] = lambda l, st, r, a, k: l.shallow(st, r)


@meth(L.METH_DICT, "pop")
def d_pop(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    p, v = l.dict_lookup(st, c, a[0])
    d = a[1] if len(a) > 1 else None
    if v is None or p is ZERO:
        if d is None:
            raise_("KeyError", "pop")
        return d
    out = v if d is None or p is ONE else I.phi(st, p, v, d)
    l.delitem(st, r, a[0])
    return out


# ================================================================= str methods
@meth(L.METH_STR, "format")
def s_format(l, st, r, a, k):
    return l.strfmt(st, r, a, k)


@meth(L.METH_STR, "join")
def s_join(l, st, r, a, k):
    I = l.I
    segs = l.segs(st, a[0])
    if segs is None:
        return I.opq("join")
    segs = l.expand(segs)
    if l.plain(segs):
        parts = []
        for i, s in enumerate(segs):
            if i:
                parts.append(r)
            parts.append(s.val)
        return l.strcat(st, parts) if parts else K("")
    if len(segs) == 1 and isinstance(segs[0], Seg):
        s = segs[0]
        return N(T.red("join", list(s.vars), I.term(st, s.val), s.guard, I.term(st, r)), ZERO, "str")
    return I.opq("join")


def s_generic(nm, kind="str"):
    def f(l, st, r, a, k):
        if isinstance(r, K) and all(isinstance(x, K) for x in a):
            v = getattr(r.v, nm)(*[x.v for x in a])
            if isinstance(v, list):
                return l.I.alloc(st, ListC([Seg((), ONE, K(x)) for x in v]))
            return K(v)
        ts = [l.I.term(st, x) for x in a]
        return N(T.app("s_" + nm, l.I.term(st, r), *ts, boolean=(kind == "bool")), ZERO, kind)
    return f


for _n in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "split", "rsplit", "title", "encode", "decode", "zfill"):
    L.METH_STR[_n] = s_generic(_n, "str" if "split" not in _n else "any")
for _n in ("startswith", "endswith", "isdigit"):
    L.METH_STR[_n] = s_generic(_n, "bool")
L.METH_STR["find"] = s_generic("find", "int")
L.METH_STR["count"] = s_generic("count", "int")

# numpy scalar methods
L.METH_NUM["item"] = lambda l, st, r, a, k: r
L.METH_NUM["copy"] = lambda l, st, r, a, k: r
for _n in ("sum", "mean", "min", "max"):
    L.METH_NUM[_n] = lambda l, st, r, a, k: r
L.METH_NUM["tolist"] = lambda l, st, r, a, k: r
L.METH_NUM["astype"] = lambda l, st, r, a, k: r
L.METH_NUM["is_integer"] = lambda l, st, r, a, k: N(T.app("is_integer", l.I.term(st, r), boolean=True), ZERO, "bool")


# ================================================================= __dict__ access
@meth(L.METH_VARS, "update")
def v_update(l, st, r, a, k):
    I = l.I
    src = a[0] if a else None
    if isinstance(src, ExtBound) and src.name == "__dict__":
        for n, v in I.content(st, src.recv).attrs.items():
            I.setattr(st, r.recv, n, v)
        return K(None)
    c = I.content(st, src) if isinstance(src, Ref) else None
    if isinstance(c, DictC) and all(isinstance(e, Ent) and isinstance(e.key, K) for e in c.ents) and c.fun is None:
        for e in c.ents:
            I.setattr(st, r.recv, e.key.v, e.val)
        return K(None)
    I.note("__dict__.update opaque")
    return K(None)


@meth(L.METH_VARS, "copy")
def v_copy(l, st, r, a, k):
    return b_dict(l, st, [r], {}, None)


for _n in ("keys", "values", "items"):
    def _g(nm):
        def f(l, st, r, a, k):
            at = l.I.content(st, r.recv).attrs
            return SeqV([Seg((), ONE, K(x) if nm == "keys" else (v if nm == "values" else Tup([K(x), v]))) for x, v in at.items()])
        return f
    L.METH_VARS[_n] = _g(_n)
L.METH_VARS["get"] = lambda l, st, r, a, k: EXT["builtins.getattr"](l, st, [r.recv, a[0], a[1] if len(a) > 1 else K(None)], {}, None)


# ================================================================= files given by the rule
def file_value(l, st, path):
    """the value a rule declares for the file at a constant path (Interp.files)"""
    if isinstance(path, K) and path.v in getattr(l.I, "files", {}):
        return l.I.files[path.v]
    return None


def parse_text(l, st, v):
    """constant strings in nested lists as the numbers they denote"""
    if isinstance(v, K) and isinstance(v.v, str):
        try:
            return K(float(v.v))
        except ValueError:
            raise_("ValueError", "could not convert string to float")
    if isinstance(v, Tup):
        return Tup([parse_text(l, st, x) for x in v.items])
    c = l.I.content(st, v) if isinstance(v, Ref) else None
    if isinstance(c, ListC) and c.segs and any(not isinstance(s.val, N) for s in c.segs if isinstance(s, Seg)) and all(isinstance(s, Seg) for s in c.segs):
        vals = [parse_text(l, st, s.val) for s in c.segs]
        if any(a is not b.val for a, b in zip(vals, c.segs)):
            return l.I.alloc(st, ListC([Seg(s.vars, s.guard, a) for a, s in zip(vals, c.segs)]))
    return v


@ext("csv.reader")
def csv_reader(l, st, args, kw, node):
    """the rows a rule declares for the file (comma-separated)"""
    c = l.I.content(st, args[0]) if isinstance(args[0], Ref) else None
    if isinstance(c, InstC) and isinstance(c.cls, Ext) and c.cls.path == "file":
        d = kw.get("delimiter")
        v = file_value(l, st, c.attrs["path"])
        if v is not None and (d is None or isinstance(d, K) and d.v == ","):
            return l.shallow(st, v)
    l.I.note("unmodelled csv file")
    return Opq("csv rows")


@ext("numpy.loadtxt", "numpy.genfromtxt")
def np_loadtxt(l, st, args, kw, node):
    v = file_value(l, st, args[0])
    d = kw.get("delimiter")
    if v is None or set(kw) - {"delimiter", "dtype"} or not (isinstance(d, K) and d.v == ","):
        l.I.note("unmodelled text file")
        return Opq("text table")
    return EXT["numpy.array"](l, st, [v], {"dtype": Ext("numpy.float64")}, node)


# ================================================================= digests and processes
@ext("hashlib.sha1", "hashlib.md5", "hashlib.sha256", "hashlib.sha512")
def h_new(l, st, args, kw, node):
    v = args[0] if args else K(b"")
    if isinstance(v, K) and isinstance(v.v, bytes):
        import hashlib
        h = getattr(hashlib, l.I.lib_path.split(".")[-1])(v.v).hexdigest()
        return l.I.alloc(st, InstC(Ext("digest"), {"hex": K(h), "data": v, "fn": K(l.I.lib_path)}))
    if isinstance(v, K) or isinstance(v, N) and v.kind == "str" and not v.val.opaque:
        raise_("TypeError", "a string must be encoded before hashing")
    return l.I.opq("digest")


@meth(L.METH_INST, ("digest", "update"))
def h_update(l, st, r, a, k):
    c = l.I.content(st, r)
    if isinstance(a[0], K) and isinstance(a[0].v, bytes):
        import hashlib
        d = c.attrs["data"].v + a[0].v
        h = getattr(hashlib, c.attrs["fn"].v.split(".")[-1])(d).hexdigest()
        st.heap[r.loc] = InstC(c.cls, {"hex": K(h), "data": K(d), "fn": c.attrs["fn"]})
        return K(None)
    if isinstance(a[0], K):
        raise_("TypeError", "a string must be encoded before hashing")
    st.heap[r.loc] = InstC(c.cls, {"hex": l.I.opq("digest"), "data": K(b""), "fn": c.attrs["fn"]})
    return K(None)


L.METH_INST[("digest", "hexdigest")] = lambda l, st, r, a, k: l.I.content(st, r).attrs["hex"]


@ext("multiprocessing.Manager")
def mp_manager(l, st, args, kw, node):
    return l.I.alloc(st, InstC(Ext("manager"), {}))


L.METH_INST[("manager", "dict")] = lambda l, st, r, a, k: l.I.alloc(st, DictC([]), owner="manager")
L.METH_INST[("manager", "list")] = lambda l, st, r, a, k: l.I.alloc(st, ListC([]), owner="manager")
EXT["multiprocessing.cpu_count"] = lambda l, st, a, k, n: K(getattr(l.I, "cpus", 3)) if hasattr(l.I, "pick") else N(T.sym("cpu_count", pos=True, integer=True), ZERO, "int")


@ext("multiprocessing.Process")
def mp_process(l, st, args, kw, node):
    n = l.I.rnd["process"] = l.I.rnd.get("process", 0) + 1
    return l.I.alloc(st, InstC(Ext("process"), {"target": kw.get("target", K(None)), "args": kw.get("args", Tup([])), "kwargs": kw.get("kwargs", K(None)),
                                                "left": K(0), "started": K(False), "exitcode": K(0), "no": K(n)}))


@meth(L.METH_INST, ("process", "start"))
def mp_start(l, st, r, a, k):
    I = l.I
    c = I.content(st, r)
    if not hasattr(I, "pick") or st.pc is not ONE or I.loopvars:
        from .interp import Abort
        raise Abort("unmodelled process: condition %s" % st.pc)
    st.heap[r.loc] = InstC(c.cls, dict(c.attrs, started=K(True), left=K(I.lifetime(c.attrs["no"].v))))
    return K(None)


def mp_finish(l, st, r):
    """what a child did becomes visible when it has finished; it ran on a copy of the parent's memory, only managed objects are shared"""
    I = l.I
    c = I.content(st, r)
    if not c.attrs["started"].v:
        return
    before = dict(st.heap)
    I.call(st, c.attrs["target"], [s.val for s in l.segs(st, c.attrs["args"])], {})
    for loc, v in before.items():
        m = I.heapmeta.get(loc)
        if not (m is not None and m.owner == "manager"):
            st.heap[loc] = v
    st.heap[r.loc] = InstC(c.cls, dict(c.attrs, started=K(False), left=K(0)))


@meth(L.METH_INST, ("process", "is_alive"))
def mp_alive(l, st, r, a, k):
    c = l.I.content(st, r)
    n = c.attrs["left"].v
    if n <= 0:
        mp_finish(l, st, r)
        return K(False)
    st.heap[r.loc] = InstC(c.cls, dict(c.attrs, left=K(n - 1)))
    return K(True)


@meth(L.METH_INST, ("process", "join"))
def mp_join(l, st, r, a, k):
    if a or k:
        from .interp import Abort
        raise Abort("join with a time limit")
    mp_finish(l, st, r)
    return K(None)


@ext("importlib.machinery.SourceFileLoader")
def imp_loader(l, st, args, kw, node):
    return l.I.alloc(st, InstC(Ext("loader"), {"path": arg(args, kw, 1, "path", K(None))}))


@meth(L.METH_INST, ("loader", "load_module"), ("loader", "exec_module"))
def loader_load(l, st, recv, args, kw):
    v = file_value(l, st, l.I.content(st, recv).attrs["path"])
    if v is None:
        l.I.note("unmodelled import of a file")
        return Opq("module")
    return v


@ext("imp.load_source")
def imp_load_source(l, st, args, kw, node):
    v = file_value(l, st, args[1])
    if v is None:
        l.I.note("unmodelled import of a file")
        return Opq("module")
    return v


@ext("runpy.run_path")
def run_path(l, st, args, kw, node):
    v = file_value(l, st, args[0])
    if v is None:
        l.I.note("unmodelled import of a file")
        return Opq("module")
    return ns_dict(l, st, v)


def ns_dict(l, st, v):
    c = l.I.content(st, v)
    return l.I.alloc(st, DictC([Ent((), ONE, K(k), x) for k, x in c.attrs.items()]))


@ext("importlib.util.spec_from_file_location")
def spec_from_file(l, st, args, kw, node):
    ld = imp_loader(l, st, args, kw, node)
    return l.I.alloc(st, InstC(Ext("modspec"), {"loader": ld, "path": arg(args, kw, 1, "location", K(None))}))


@ext("importlib.util.module_from_spec")
def module_from_spec(l, st, args, kw, node):
    return loader_load(l, st, l.I.content(st, args[0]).attrs["loader"], [], {})


class Argv:
    """constant folding of argparse: all declarations and the command line are constants"""

    @staticmethod
    def const(l, st, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, Ext) and v.path in ("builtins.str", "builtins.int", "builtins.float"):
            return {"str": str, "int": int, "float": float}[v.path.split(".")[1]]
        if isinstance(v, Tup):
            return [Argv.const(l, st, x) for x in v.items]
        c = l.I.content(st, v) if isinstance(v, Ref) else None
        if isinstance(c, ListC) and all(not s.vars and s.guard is ONE for s in c.segs):
            return [Argv.const(l, st, s.val) for s in c.segs]
        from .interp import Abort
        raise Abort("argparse: not a constant")


@ext("argparse.ArgumentParser")
def argparser(l, st, args, kw, node):
    return l.I.alloc(st, InstC(Ext("argparser"), {"decls": K(())}))


@meth(L.METH_INST, ("argparser", "add_argument"))
def add_argument(l, st, recv, args, kw):
    c = l.I.content(st, recv)
    d = ([Argv.const(l, st, a) for a in args], {k: Argv.const(l, st, v) for k, v in kw.items()})
    st.heap[recv.loc] = InstC(c.cls, dict(c.attrs, decls=K(c.attrs["decls"].v + (d,))))
    return K(None)


@meth(L.METH_INST, ("argparser", "parse_args"))
def parse_args(l, st, recv, args, kw):
    import argparse
    import contextlib
    import io
    argv = Argv.const(l, st, args[0]) if args and not (isinstance(args[0], K) and args[0].v is None) else getattr(l.I, "argv", None)
    if argv is None:
        l.I.note("unmodelled command line")
        return Opq("args")
    p = argparse.ArgumentParser()
    for a, k in l.I.content(st, recv).attrs["decls"].v:
        p.add_argument(*a, **k)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            ns = p.parse_args(argv)
    except SystemExit:
        raise_("SystemExit", "command line refused")

    def lift(x):
        if isinstance(x, list):
            return l.I.alloc(st, ListC([Seg((), ONE, lift(y)) for y in x]))
        return K(x)
    return l.I.alloc(st, InstC(Ext("namespace"), {k: lift(v) for k, v in vars(ns).items()}))
