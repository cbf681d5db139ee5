"""Abstract interpreter over the Python AST.

One pass over each function body in the context of a call, joining at every
branch; loops over symbolic collections are summarised (sums, guarded
comprehensions, pointwise stores) or kept as loop-carried values (mu atoms)
with their init/next equations.  No repository code is imported or executed.
"""
import ast
import itertools
import os
import sys
from fractions import Fraction

from . import term as T
from .term import ONE, ZERO, Poly, Var
from .values import *

sys.setrecursionlimit(20000)

DEBUG = bool(os.environ.get("SA_DEBUG"))


class Raise(Exception):
    """definite Python exception in the analysed program"""

    def __init__(self, name, msg="", node=None, val=None):
        self.name, self.msg, self.node, self.val = name, msg, node, val
        super().__init__("%s: %s" % (name, msg))


class FrameC:
    __slots__ = ("env", "parent", "fn", "globs", "nonloc")

    def __init__(self, env, parent, fn, globs=frozenset(), nonloc=frozenset()):
        self.env, self.parent, self.fn, self.globs, self.nonloc = env, parent, fn, globs, nonloc


class Meta:
    __slots__ = ("owner", "birth", "site", "depth")

    def __init__(self, owner, birth, site, depth):
        self.owner, self.birth, self.site, self.depth = owner, birth, site, depth


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=ONE):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.pc)


class Out:
    __slots__ = ("kind", "st", "val", "g")

    def __init__(self, kind, st, val=None, g=ONE):
        self.kind, self.st, self.val, self.g = kind, st, val, g


class Event:
    __slots__ = ("kind", "pc", "loops", "data", "site")

    def __init__(self, kind, pc, loops, data, site):
        self.kind, self.pc, self.loops, self.data, self.site = kind, pc, loops, data, site

    def __repr__(self):
        return "Event(%s @%s %r)" % (self.kind, self.site, self.data)


class Loop:
    """a while-like loop: carried values with init/next and exit conditions"""

    def __init__(self, lid, site):
        self.lid, self.site = lid, site
        self.init = {}
        self.next = {}
        self.exits = []
        self.fun = {}
        self.func = None


class Abort(Exception):
    pass


EXC_PARENTS = {
    "AssertionError": ("AssertionError", "Exception", "BaseException"),
    "KeyError": ("KeyError", "LookupError", "Exception", "BaseException"),
    "IndexError": ("IndexError", "LookupError", "Exception", "BaseException"),
    "AttributeError": ("AttributeError", "Exception", "BaseException"),
    "NotImplementedError": ("NotImplementedError", "RuntimeError", "Exception", "BaseException"),
    "TypeError": ("TypeError", "Exception", "BaseException"),
    "ValueError": ("ValueError", "Exception", "BaseException"),
    "RuntimeError": ("RuntimeError", "Exception", "BaseException"),
    "ImportError": ("ImportError", "Exception", "BaseException"),
    "NameError": ("NameError", "Exception", "BaseException"),
}


class Interp:
    UNROLL = 40
    MAXDEPTH = 60

    def __init__(self, project):
        self.project = project
        self.heapmeta = {}
        self._loc = itertools.count(1)
        self._lid = itertools.count(1)
        self.loops = {}
        self.events = []
        self.handlers = []          # active exception handlers
        self.loopvars = []          # active symbolic loop vars
        self.frame = None           # current frame loc
        self.fstack = []            # function call stack (names)
        self.site = ("?", 0)
        self.notes = {}             # reason -> count (imprecision)
        self.stubs = {}             # (clsname, attr) -> callable(interp, st, selfval)
        self.fnhooks = {}           # function qualname -> callable
        self.rnd = {}
        self.calls = {}
        self.funcs_seen = set()
        self.stmts = 0
        self.budget = 400000
        self.errors = []            # definite shape errors etc.
        self.escaped = set()
        from . import lib
        self.lib = lib.Lib(self)
        self.ElemRestart = lib.ElemRestart

    # ------------------------------------------------------------- utilities
    def note(self, why):
        self.notes[why] = self.notes.get(why, 0) + 1
        if DEBUG:
            print("NOTE", why, self.where(), file=sys.stderr)

    def where(self):
        return "%s:%s%s" % (self.site[0], self.site[1], " in " + self.fstack[-1] if self.fstack else "")

    def event(self, st, kind, *data):
        if kind in ("assert", "assert_fail", "reject") and self.handlers:
            name = data[1] if kind == "reject" else "AssertionError"
            if any(self.match_exc(t, name) for hs in self.handlers for t in hs):
                kind = "caught_" + kind
        self.events.append(Event(kind, st.pc, tuple(self.loopvars), data, self.where()))

    def opq(self, tag, *deps):
        self.note("opaque: %s" % (tag,))
        return Opq(tag)

    def alloc(self, st, content, owner="fresh", birth=None):
        loc = next(self._loc)
        st.heap[loc] = content
        self.heapmeta[loc] = Meta(owner, tuple(self.loopvars) if birth is None else tuple(birth), self.where(), len(self.loopvars))
        return Ref(loc)

    def arr(self, st, dims, val, miss=ZERO, kind="num", base=None):
        return self.alloc(st, self.norm_arr(ArrC(dims, val, miss, kind, base)))

    def norm_arr(self, a):
        if a.miss is not ZERO:
            a.val = self.assume_present(a.val, a.miss)
        return a

    @staticmethod
    def assume_present(val, miss):
        if miss is ZERO or not isinstance(val, Poly):
            return val
        if miss is ONE:
            return ZERO
        prs = ONE - miss
        mm = prs.mono()
        if not mm or mm[0] != 1:
            return val
        ats = {a for a, e in mm[1]}
        return _drop_bools(val, ats)

    # -------------------------------------------------------------- deref etc.
    def deref(self, st, ref):
        c = st.heap.get(ref.loc)
        if c is None:
            raise Abort("dangling ref %s" % ref.loc)
        if ref.sub:
            c = self.sub_content(c, ref.sub)
        return c

    def content(self, st, v):
        if isinstance(v, Ref):
            return self.deref(st, v)
        return None

    def sub_val(self, v, mp):
        if not mp or isinstance(v, (K, Fn, Cls, Ext, ModV, Wrapped)):
            return v
        if isinstance(v, N):
            nv = T.subst(v.val, mp)
            nm = T.subst(v.miss, mp)
            if nv is v.val and nm is v.miss:
                return v
            return N(nv, nm, v.kind)
        if isinstance(v, Tup):
            return Tup([self.sub_val(x, mp) for x in v.items])
        if isinstance(v, Ref):
            birth = self.heapmeta[v.loc].birth
            new = {}
            for b in birth:
                if b in v.sub:
                    new[b] = T.subst(v.sub[b], mp)
                elif b in mp:
                    new[b] = T.lift(mp[b])
            new = {b: t for b, t in new.items() if t is not T.idx(b)}
            if not new and not v.sub:
                return v
            return Ref(v.loc, new)
        if isinstance(v, PhiV):
            return self.phi(None, T.subst(v.c, mp), self.sub_val(v.a, mp), self.sub_val(v.b, mp))
        if isinstance(v, SeqV):
            return SeqV([self.sub_seg(s, mp) for s in v.segs], v.kind)
        if isinstance(v, Bound):
            return Bound(v.fn, self.sub_val(v.self_, mp))
        if isinstance(v, ExtBound):
            return ExtBound(v.name, self.sub_val(v.recv, mp))
        if isinstance(v, Partial):
            return Partial(v.fn, [self.sub_val(x, mp) for x in v.args], {k: self.sub_val(x, mp) for k, x in v.kwargs.items()})
        return v

    def sub_seg(self, s, mp):
        if isinstance(s, MuSeg):
            return s
        mp = {k: v for k, v in mp.items() if k not in s.vars}
        vs = []
        ren = dict(mp)
        for v in s.vars:
            ns = T.subst(v.size, mp)
            if ns is not v.size:
                w = Var(v.name.split("#")[0], ns)
                ren[v] = T.idx(w)
                vs.append(w)
            else:
                vs.append(v)
        return Seg(vs, T.subst(s.guard, ren), self.sub_val(s.val, ren))

    def sub_content(self, c, mp):
        if isinstance(c, ArrC):
            ds = []
            ren = dict(mp)
            for d in c.dims:
                vs = []
                for v in d.vars:
                    ns = T.subst(v.size, mp)
                    if ns is not v.size:
                        w = Var(v.name.split("#")[0], ns)
                        ren[v] = T.idx(w)
                        vs.append(w)
                    else:
                        vs.append(v)
                ds.append((vs, d.guard))
            dims = [Dim(vs, T.subst(g, ren)) for vs, g in ds]
            return ArrC(dims, T.subst(c.val, ren), T.subst(c.miss, ren), c.kind, c.base)
        if isinstance(c, ListC):
            return ListC([self.sub_seg(s, mp) for s in c.segs], c.kind)
        if isinstance(c, DictC):
            out = []
            for e in c.ents:
                if isinstance(e, MuEnt):
                    out.append(e)
                    continue
                m2 = {k: v for k, v in mp.items() if k not in e.vars}
                ren = dict(m2)
                vs = []
                for v in e.vars:
                    ns = T.subst(v.size, m2)
                    if ns is not v.size:
                        w = Var(v.name.split("#")[0], ns)
                        ren[v] = T.idx(w)
                        vs.append(w)
                    else:
                        vs.append(v)
                out.append(Ent(vs, T.subst(e.guard, ren), self.sub_val(e.key, ren), self.sub_val(e.val, ren)))
            d = DictC(out, None)
            if c.fun is not None:
                kv, has, val, keys = c.fun
                d.fun = (kv, T.subst(has, mp), self.sub_val(val, mp), self.sub_val(keys, mp))
            return d
        if isinstance(c, InstC):
            return InstC(c.cls, {k: self.sub_val(v, mp) for k, v in c.attrs.items()})
        return c

    # ------------------------------------------------------------------ terms
    def term(self, st, v):
        """Poly standing for a value (opaque where impossible)"""
        if isinstance(v, K):
            x = v.v
            if isinstance(x, bool):
                return ONE if x else ZERO
            if isinstance(x, (int, Fraction)):
                return T.const(x)
            if isinstance(x, float):
                if x != x or x in (float("inf"), float("-inf")):
                    return T.sym(repr(x))
                return T.const(x)
            if isinstance(x, str):
                return T.strc(x)
            if x is None:
                return T.sym("None")
            return T.sym(repr(x))
        if isinstance(v, N):
            return v.val
        if isinstance(v, Tup):
            return T.tup(*[self.term(st, x) for x in v.items])
        if isinstance(v, PhiV):
            return T.phi(v.c, self.term(st, v.a), self.term(st, v.b))
        if isinstance(v, Opq):
            return v.poly()
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ArrC) and all(not d.vars for d in c.dims):
                return c.val
            if isinstance(c, ListC) and all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in c.segs):
                return T.tup(*[self.term(st, s.val) for s in c.segs])
            return T.opaque("ref")
        if isinstance(v, (Cls, Fn)):
            return T.sym("obj:" + v.name)
        if isinstance(v, Ext):
            return T.sym("ext:" + v.path)
        return T.opaque(type(v).__name__)

    def missof(self, v):
        if isinstance(v, N):
            return v.miss
        if isinstance(v, K) and isinstance(v.v, float) and v.v != v.v:
            return ONE
        if isinstance(v, PhiV):
            return T.phi(v.c, self.missof(v.a), self.missof(v.b))
        return ZERO

    def is_nan_const(self, v):
        return isinstance(v, K) and isinstance(v.v, float) and v.v != v.v

    def num(self, st, v):
        """(val, miss) for a numeric scalar value or None"""
        if isinstance(v, K):
            if isinstance(v.v, float) and v.v != v.v:
                return ZERO, ONE
            if isinstance(v.v, (bool, int, float)):
                return self.term(st, v), ZERO
            return None
        if isinstance(v, N):
            return v.val, v.miss
        if isinstance(v, PhiV):
            a, b = self.num(st, v.a), self.num(st, v.b)
            if a is None or b is None:
                return None
            return T.phi(v.c, a[0], b[0]), T.phi(v.c, a[1], b[1])
        if isinstance(v, Opq):
            return v.poly(), ZERO
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ArrC) and all(not d.vars for d in c.dims):
                return c.val, c.miss
        return None

    def simp(self, v):
        """collapse symbolic scalar with constant value to K"""
        if isinstance(v, N) and v.miss is ZERO and v.val.is_const:
            c = v.val.cval
            if v.kind == "bool" and c in (0, 1):
                return K(bool(c))
            if v.kind == "int" and c.denominator == 1:
                return K(int(c))
            if v.kind == "num":
                if c.denominator == 1:
                    return K(int(c))
                f = float(c)
                return K(f) if T.frac(f) == c else K(Fraction(c))
        if isinstance(v, N) and v.miss is ONE:
            return K(float("nan"))
        return v

    # --------------------------------------------------------------- truthiness
    def truth(self, st, v):
        """Poly 0/1 (ONE/ZERO when known)"""
        if isinstance(v, K):
            return ONE if v.v else ZERO
        if isinstance(v, N):
            if v.kind == "bool":
                return v.val
            if v.kind in ("num", "int"):
                return T.or_(v.miss, ONE - T.eq0(v.val))
            if v.kind == "str":
                return ONE - T.eq0(v.val - T.strc(""))
            return T.app("truth", v.val, boolean=True)
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, PhiV):
            return T.phi(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ListC):
                n = self.seq_len(c.segs)
                return T.gt0(n) if n is not None else T.app("truth", T.opaque("list"), boolean=True)
            if isinstance(c, DictC):
                if c.fun is None and all(isinstance(e, Ent) for e in c.ents):
                    n = T.add_all([T.ssum(list(e.vars), e.guard) for e in c.ents])
                    return T.gt0(n)
                return T.app("truth", T.opaque("dict"), boolean=True)
            if isinstance(c, ArrC) and all(not d.vars for d in c.dims):
                return self.truth(st, N(c.val, c.miss, c.kind))
            if isinstance(c, ArrC):
                return T.app("truth", T.opaque("arr"), boolean=True)
            return ONE
        if isinstance(v, SeqV):
            n = self.seq_len(v.segs)
            return T.gt0(n) if n is not None else T.app("truth", T.opaque("seq"), boolean=True)
        if isinstance(v, (Fn, Cls, Bound, Ext, ModV, Partial)):
            return ONE
        if isinstance(v, Opq):
            return T.app("truth", v.poly(), boolean=True)
        return T.app("truth", T.opaque("val"), boolean=True)

    def seq_len(self, segs):
        if any(isinstance(s, MuSeg) for s in segs):
            return None
        return T.add_all([T.ssum(list(s.vars), s.guard) for s in segs])

    # ------------------------------------------------------------------- phi
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, K):
            return type(a.v) is type(b.v) and (a.v == b.v or (a.v != a.v and b.v != b.v))
        if isinstance(a, N):
            return a.val is b.val and a.miss is b.miss and a.kind == b.kind
        if isinstance(a, Ref):
            return a.loc == b.loc and a.sub.keys() == b.sub.keys() and all(a.sub[k] is b.sub[k] for k in a.sub)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ext):
            return a.path == b.path
        if isinstance(a, Bound):
            return a.fn is b.fn and self.same(a.self_, b.self_)
        if isinstance(a, PhiV):
            return a.c is b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, SeqV):
            return len(a.segs) == len(b.segs) and all(self.same_seg(x, y) for x, y in zip(a.segs, b.segs))
        return False

    def same_seg(self, x, y):
        if x is y:
            return True
        if isinstance(x, MuSeg) or isinstance(y, MuSeg):
            return isinstance(x, MuSeg) and isinstance(y, MuSeg) and x.key == y.key
        return x.vars == y.vars and x.guard is y.guard and self.same(x.val, y.val)

    def phi(self, st, c, a, b):
        if c is ONE:
            return a
        if c is ZERO:
            return b
        if self.same(a, b):
            return a
        na = isinstance(a, (K, N)) and (isinstance(a, N) or isinstance(a.v, (bool, int, float)))
        nb = isinstance(b, (K, N)) and (isinstance(b, N) or isinstance(b.v, (bool, int, float)))
        if na and nb:
            ka = self.kind(a)
            kb = self.kind(b)
            if (ka == "str") != (kb == "str"):
                return PhiV(c, a, b)
            x, y = self.num(st, a), self.num(st, b)
            k = ka if ka == kb else ("num" if {ka, kb} <= {"num", "int", "bool"} else "any")
            miss = T.phi(c, x[1], y[1])
            val = T.phi(c, x[0], y[0])
            if x[1] is ONE:
                val = y[0]
            elif y[1] is ONE:
                val = x[0]
            else:
                val = self.assume_present(val, miss)
            return self.simp(N(val, miss, k))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi(st, c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and st is not None:
            ca, cb = self.content(st, a), self.content(st, b)
            if isinstance(ca, ArrC) and isinstance(cb, ArrC):
                j = self.join_arr(c, ca, cb)
                if j is not None:
                    return self.alloc(st, j)
        return PhiV(c, a, b)

    def kind(self, v):
        if isinstance(v, N):
            return v.kind
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return "bool"
            if isinstance(v.v, int):
                return "int"
            if isinstance(v.v, (float, Fraction)):
                return "num"
            if isinstance(v.v, str):
                return "str"
        return "any"

    def join_arr(self, c, ca, cb):
        u = self.unify_dims(ca, cb)
        if u is None:
            return None
        ca, cb = u
        k = ca.kind if ca.kind == cb.kind else "num"
        miss = T.phi(c, ca.miss, cb.miss)
        if ca.miss is ONE:
            val = cb.val
        elif cb.miss is ONE:
            val = ca.val
        else:
            val = T.phi(c, ca.val, cb.val)
        return self.norm_arr(ArrC(ca.dims, val, miss, k))

    def unify_dims(self, ca, cb):
        """rename cb (and refine either) so both have identical dim variables"""
        if len(ca.dims) != len(cb.dims):
            return None
        dims = []
        ra, rb = {}, {}
        for da, db in zip(ca.dims, cb.dims):
            r = self.match_dim(da, db)
            if r is None:
                return None
            d, ma, mb = r
            dims.append(d)
            ra.update(ma)
            rb.update(mb)
        a2 = ArrC(dims, T.subst(ca.val, ra), T.subst(ca.miss, ra), ca.kind)
        b2 = ArrC(dims, T.subst(cb.val, rb), T.subst(cb.miss, rb), cb.kind)
        return a2, b2

    def match_dim(self, da, db):
        """equal-size dims -> (dim, submap a, submap b) or None"""
        if da.vars == db.vars:
            if da.guard is db.guard:
                return da, {}, {}
        if da.guard is not ONE or db.guard is not ONE:
            if len(da.vars) == len(db.vars) and all(x.size is y.size for x, y in zip(da.vars, db.vars)):
                mb = {y: T.idx(x) for x, y in zip(da.vars, db.vars)}
                if T.subst(db.guard, mb) is da.guard:
                    return da, {}, mb
            return None
        va = [v for v in da.vars if not (v.size.is_const and v.size.cval == 1)]
        vb = [v for v in db.vars if not (v.size.is_const and v.size.cval == 1)]
        if len(va) == len(vb) and all(x.size is y.size for x, y in zip(va, vb)):
            return da, {}, {y: T.idx(x) for x, y in zip(va, vb)}
        if da.size() is not db.size():
            return None
        if len(va) >= len(vb):
            return da, {}, self.split_flat(da.flat(), vb)
        return db, self.split_flat(db.flat(), va), {}

    def split_flat(self, t, vars):
        """index substitution for row-major vars so that their flat index equals t"""
        mp = {}
        for v in reversed(vars[1:] if vars else []):
            q, r = T.divmod_(t, v.size)
            mp[v] = r
            t = q
        if vars:
            mp[vars[0]] = t
        return mp

    # ------------------------------------------------------------------- join
    def join(self, c, s1, s2):
        if c is ONE:
            return s1
        if c is ZERO:
            return s2
        out = State({}, s1.pc if s1.pc is s2.pc else T.phi(c, s1.pc, s2.pc))
        h1, h2 = s1.heap, s2.heap
        h = out.heap
        todo = []
        for loc, x in h1.items():
            y = h2.get(loc)
            if y is None or x is y:
                h[loc] = x
            else:
                h[loc] = x
                todo.append((loc, x, y))
        for loc, y in h2.items():
            if loc not in h1:
                h[loc] = y
        for loc, x, y in todo:
            h[loc] = self.join_content(out, c, loc, x, y, s1, s2)
        return out

    def join_content(self, st, c, loc, x, y, s1, s2):
        if type(x) is not type(y):
            self.note("join of different contents")
            return InstC(None, {"__opaque__": Opq("join")})
        if isinstance(x, FrameC):
            env = {}
            for k in x.env.keys() | y.env.keys():
                a, b = x.env.get(k), y.env.get(k)
                if a is None or b is None:
                    env[k] = PhiV(c, a if a is not None else K(UNDEF), b if b is not None else K(UNDEF)) \
                        if True else None
                else:
                    env[k] = a if a is b else self.phi(st, c, a, b)
            return FrameC(env, x.parent, x.fn, x.globs, x.nonloc)
        if isinstance(x, InstC):
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                a, b = x.attrs.get(k), y.attrs.get(k)
                if a is None or b is None:
                    attrs[k] = PhiV(c, a if a is not None else K(UNDEF), b if b is not None else K(UNDEF))
                else:
                    attrs[k] = self.phi(st, c, a, b)
            return InstC(x.cls, attrs)
        if isinstance(x, ArrC):
            j = self.join_arr(c, x, y)
            if j is None:
                self.note("join of arrays with different dims")
                return ArrC([], T.opaque("joinarr"))
            j.base = x.base
            return j
        if isinstance(x, ListC):
            return ListC(self.join_segs(st, c, x.segs, y.segs), x.kind)
        if isinstance(x, DictC):
            return self.join_dict(st, c, x, y)
        return x

    def join_segs(self, st, c, a, b):
        i = 0
        while i < len(a) and i < len(b) and self.same_seg(a[i], b[i]):
            i += 1
        pre = list(a[:i])
        ta, tb = a[i:], b[i:]
        if ta and tb and len(ta) == len(tb) and all(
                isinstance(p, Seg) and isinstance(q, Seg) and len(p.vars) == len(q.vars)
                and all(v.size is w.size for v, w in zip(p.vars, q.vars)) for p, q in zip(ta, tb)):
            # same-length tails: element-wise phi when guards agree
            out = []
            ok = True
            for p, q in zip(ta, tb):
                mp = {w: T.idx(v) for v, w in zip(p.vars, q.vars)}
                g2 = T.subst(q.guard, mp)
                v2 = self.sub_val(q.val, mp)
                if g2 is not p.guard:
                    ok = False
                    break
                out.append(Seg(p.vars, p.guard, self.phi(st, c, p.val, v2)))
            if ok:
                return pre + out
        out = []
        for s in ta:
            if isinstance(s, MuSeg):
                self.note("mu segment under join")
                return pre + [Seg((), ONE, Opq("joinlist"))]
            out.append(Seg(s.vars, T.mul(s.guard, c), s.val))
        for s in tb:
            if isinstance(s, MuSeg):
                self.note("mu segment under join")
                return pre + [Seg((), ONE, Opq("joinlist"))]
            out.append(Seg(s.vars, T.mul(s.guard, ONE - c), s.val))
        return pre + out

    def same_ent(self, a, b):
        if a is b:
            return True
        if isinstance(a, MuEnt) or isinstance(b, MuEnt):
            return isinstance(a, MuEnt) and isinstance(b, MuEnt) and a.key == b.key
        return a.vars == b.vars and a.guard is b.guard and self.same(a.key, b.key) and self.same(a.val, b.val)

    def join_dict(self, st, c, x, y):
        out = DictC([], x.fun)
        ax, ay = list(x.ents), list(y.ents)
        if x.fun is not None and y.fun is None or (x.fun is None and y.fun is not None):
            self.note("join dict fun")
        i = 0
        while i < len(ax) and i < len(ay) and self.same_ent(ax[i], ay[i]):
            out.ents.append(ax[i])
            i += 1
        rx, ry = ax[i:], ay[i:]
        used = set()
        for e in rx:
            m = None
            if isinstance(e, Ent) and not e.vars:
                for j, f in enumerate(ry):
                    if j not in used and isinstance(f, Ent) and not f.vars and self.same(e.key, f.key):
                        m = j
                        break
            elif isinstance(e, MuEnt):
                for j, f in enumerate(ry):
                    if isinstance(f, MuEnt) and f.key == e.key:
                        m = j
                        break
                if m is not None:
                    used.add(m)
                    out.ents.append(e)
                    continue
            if m is not None:
                f = ry[m]
                used.add(m)
                g = T.phi(c, e.guard, f.guard)
                out.ents.append(Ent((), g, e.key, self.phi(st, c, e.val, f.val)))
            elif isinstance(e, Ent):
                out.ents.append(Ent(e.vars, T.mul(e.guard, c), e.key, e.val))
        for j, f in enumerate(ry):
            if j not in used and isinstance(f, Ent):
                out.ents.append(Ent(f.vars, T.mul(f.guard, ONE - c), f.key, f.val))
        return out

    # ------------------------------------------------------------- environment
    def get_frame(self, st, loc=None):
        return st.heap[loc if loc is not None else self.frame]

    def lookup(self, st, name):
        loc = self.frame
        while loc is not None:
            f = st.heap.get(loc)
            if f is None:
                break
            if name in f.env:
                v = f.env[name]
                v = self.undef_strip(v)
                if not (isinstance(v, K) and v.v is UNDEF):
                    return v
            loc = f.parent
        fr = st.heap[self.frame]
        mod = fr.fn[0]
        v = self.project.module_get(self, st, mod, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return Ext("builtins." + name)
        raise Raise("NameError", name)

    def undef_strip(self, v):
        while isinstance(v, PhiV):
            if isinstance(v.a, K) and v.a.v is UNDEF:
                v = v.b
            elif isinstance(v.b, K) and v.b.v is UNDEF:
                v = v.a
            else:
                break
        return v

    def setvar(self, st, name, val):
        loc = self.frame
        f = st.heap[loc]
        if name in f.nonloc:
            p = f.parent
            while p is not None:
                g = st.heap[p]
                if name in g.env:
                    loc, f = p, g
                    break
                p = g.parent
        elif name in f.globs:
            self.event(st, "global_write", f.fn[0].name, name, val)
            self.project.module_set(self, st, f.fn[0], name, val)
            return
        env = dict(f.env)
        env[name] = val
        st.heap[loc] = FrameC(env, f.parent, f.fn, f.globs, f.nonloc)

    # -------------------------------------------------------------- statements
    def block(self, stmts, st):
        """returns list of Outs; at most one 'normal' (last)"""
        outs = []
        cur = st
        for s in stmts:
            r = self.stmt(s, cur)
            nxt = None
            for o in r:
                if o.kind == "normal":
                    nxt = o
                else:
                    outs.append(o)
            if nxt is None:
                return outs
            cur = nxt.st
        outs.append(Out("normal", cur))
        return outs

    def stmt(self, s, st):
        self.stmts += 1
        if self.stmts > self.budget:
            raise Abort("statement budget exhausted")
        fr = st.heap.get(self.frame)
        if fr is not None and hasattr(s, "lineno"):
            self.site = (fr.fn[0].relpath, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s" % type(s).__name__)
            return [Out("normal", st)]
        try:
            return m(s, st)
        except Raise as r:
            if r.node is None:
                r.node = self.where()
            return [Out("raise", st, r)]
        except (Abort, RecursionError, self.ElemRestart):
            raise
        except Exception as e:              # engine limitation: havoc what the statement assigns
            if DEBUG:
                raise
            self.note("internal %s: %s" % (type(e).__name__, str(e)[:60]))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setvar(st, n.id, Opq("havoc"))
            return [Out("normal", st)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out("normal", st)]
        self.ev(s.value, st)
        return [Out("normal", st)]

    def s_Pass(self, s, st):
        return [Out("normal", st)]

    def s_Global(self, s, st):
        f = st.heap[self.frame]
        st.heap[self.frame] = FrameC(f.env, f.parent, f.fn, f.globs | set(s.names), f.nonloc)
        return [Out("normal", st)]

    def s_Nonlocal(self, s, st):
        f = st.heap[self.frame]
        st.heap[self.frame] = FrameC(f.env, f.parent, f.fn, f.globs, f.nonloc | set(s.names))
        return [Out("normal", st)]

    def s_Import(self, s, st):
        for a in s.names:
            v = self.project.import_module(self, st, a.name if a.asname else a.name.split(".")[0])
            self.setvar(st, a.asname or a.name.split(".")[0], v)
        return [Out("normal", st)]

    def s_ImportFrom(self, s, st):
        mod = st.heap[self.frame].fn[0]
        base = self.project.resolve_from(mod, s)
        for a in s.names:
            v = self.project.import_from(self, st, base, a.name)
            self.setvar(st, a.asname or a.name, v)
        return [Out("normal", st)]

    def s_FunctionDef(self, s, st):
        v = self.make_fn(s, st)
        self.setvar(st, s.name, v)
        return [Out("normal", st)]

    def make_fn(self, s, st, cls=None, name=None):
        fr = st.heap[self.frame]
        defaults = [self.ev(d, st) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, st) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.escaped.add(self.frame)
        f = Fn(s, self.frame, fr.fn[0], cls, name or getattr(s, "name", "<lambda>"), defaults, kwd)
        v = f
        for d in reversed(getattr(s, "decorator_list", [])):
            v = self.decorate(st, d, v)
        return v

    def decorate(self, st, d, v):
        try:
            dv = self.ev(d, st)
        except Raise:
            return v
        if isinstance(dv, Ext):
            p = dv.path
            if p == "builtins.staticmethod":
                return Wrapped("static", v)
            if p == "builtins.classmethod":
                return Wrapped("class", v)
            if p in ("builtins.property", "functools.cached_property"):
                return Wrapped("property", v)
            return v
        if isinstance(dv, Cls):
            if any(isinstance(c, Cls) and "__call__" in c.ns for c in dv.mro()):
                return v      # memoizing callable classes are value-transparent (checked separately)
            return v
        if isinstance(dv, (Fn, Bound, Partial)):
            fn = v.fn if isinstance(v, Wrapped) else v
            try:
                r = self.call(st, dv, [v], {})
            except Raise:
                return v
            return r if isinstance(r, (Fn, Wrapped, Bound)) else v
        return v

    def s_ClassDef(self, s, st):
        v = self.project.make_class(self, st, s, st.heap[self.frame].fn[0])
        self.setvar(st, s.name, v)
        return [Out("normal", st)]

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else K(None)
        return [Out("return", st, v)]

    def s_Break(self, s, st):
        return [Out("break", st)]

    def s_Continue(self, s, st):
        return [Out("continue", st)]

    def s_Assert(self, s, st):
        v = self.ev(s.test, st)
        c = self.truth(st, v)
        if c is ZERO:
            self.event(st, "assert_fail", ast.unparse(s.test))
            raise Raise("AssertionError", ast.unparse(s.test)[:80])
        if c is not ONE:
            self.event(st, "assert", c, ast.unparse(s.test))
        return [Out("normal", st)]

    def s_Raise(self, s, st):
        name = "Exception"
        v = None
        if s.exc is not None:
            e = s.exc
            v = None
            if isinstance(e, ast.Call):
                e2 = e.func
                for a in e.args:
                    try:
                        self.ev(a, st)
                    except Raise:
                        pass
            else:
                e2 = e
            if isinstance(e2, ast.Name):
                name = e2.id
            elif isinstance(e2, ast.Attribute):
                name = e2.attr
        raise Raise(name, ast.unparse(s)[:80])

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev_index(t.slice, st)
                self.lib.delitem(st, o, k)
            elif isinstance(t, ast.Name):
                f = st.heap[self.frame]
                env = dict(f.env)
                env.pop(t.id, None)
                st.heap[self.frame] = FrameC(env, f.parent, f.fn, f.globs, f.nonloc)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if isinstance(o, Ref):
                    c = st.heap[o.loc]
                    self.mark_write(st, o, "del ." + t.attr)
                    if isinstance(c, InstC):
                        a = dict(c.attrs)
                        a.pop(t.attr, None)
                        st.heap[o.loc] = InstC(c.cls, a)
        return [Out("normal", st)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [Out("normal", st)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return [Out("normal", st)]

    def s_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(st, t.id)
            rhs = self.ev(s.value, st)
            self.setvar(st, t.id, self.lib.iop(st, op, old, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.getattr(st, o, t.attr)
            rhs = self.ev(s.value, st)
            self.setattr(st, o, t.attr, self.lib.iop(st, op, old, rhs))
        elif isinstance(t, ast.Subscript):
            o, k = self.sub_target(t, st)
            rhs = self.ev(s.value, st)
            self.lib.aug_setitem(st, o, k, op, rhs)
        return [Out("normal", st)]

    def sub_target(self, t, st):
        """(object, index) flattening A[i][j] on arrays into A[i, j]"""
        k = self.ev_index(t.slice, st)
        if isinstance(t.value, ast.Subscript):
            o2, k2 = self.sub_target(t.value, st)
            c = self.content(st, o2)
            if isinstance(c, ArrC):
                ks = list(k2.items) if isinstance(k2, Tup) else [k2]
                if len(ks) < len(c.dims) and all(isinstance(x, (K, N)) for x in ks):
                    ks += list(k.items) if isinstance(k, Tup) else [k]
                    return o2, Tup(ks)
            return self.lib.getitem(st, o2, k2), k
        return self.ev(t.value, st), k

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts), t.elts)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, k = self.sub_target(t, st)
            self.lib.setitem(st, o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, st, v, n, elts=None):
        if isinstance(v, PhiV):
            a, b = self.unpack(st, v.a, n), self.unpack(st, v.b, n)
            return [self.phi(st, v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Tup):
            if len(v.items) == n:
                return list(v.items)
            if len(v.items) != n:
                raise Raise("ValueError", "unpack")
        seq = self.lib.segs(st, v)
        if seq is not None:
            if all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in seq):
                if len(seq) == n:
                    return [s.val for s in seq]
                raise Raise("ValueError", "unpack")
            if len(seq) == 1 and isinstance(seq[0], Seg):
                return [self.lib.seq_at(st, seq, T.const(i)) for i in range(n)]
        if isinstance(v, N) and v.kind in ("any",) or isinstance(v, N) and v.val.mono() and v.val.mono()[1] and v.val.mono()[1][0][0].kind == "tup":
            a = v.val.mono()[1][0][0]
            if a.kind == "tup" and len(a.data) == n:
                return [N(p, ZERO, "any") for p in a.data]
            return [N(T.app("proj", v.val, i), ZERO, "any") for i in range(n)]
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ArrC) and c.dims:
                z = c.dims[0].size()
                if z.is_const:
                    if z.cval != n:
                        raise Raise("ValueError", "unpack")
                    return [self.lib.getitem(st, v, K(i)) for i in range(n)]
        return [self.opq("unpack") for _ in range(n)]

    def s_If(self, s, st):
        c = self.truth(st, self.ev(s.test, st))
        if c is ONE:
            return self.block(s.body, st)
        if c is ZERO:
            return self.block(s.orelse, st)
        return self.branch(c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x), st,
                           ast.unparse(s.test))

    def branch(self, c, f1, f2, st, label=""):
        s1 = st.copy()
        s2 = st.copy()
        s1.pc = T.mul(st.pc, c)
        s2.pc = T.mul(st.pc, ONE - c)
        o1 = f1(s1)
        o2 = f2(s2)
        n1 = [o for o in o1 if o.kind == "normal"]
        n2 = [o for o in o2 if o.kind == "normal"]
        r1 = [o for o in o1 if o.kind == "raise"]
        r2 = [o for o in o2 if o.kind == "raise"]
        outs = []
        for o in o1:
            if o.kind in ("return", "break", "continue"):
                outs.append(Out(o.kind, o.st, o.val, T.mul(c, o.g)))
        for o in o2:
            if o.kind in ("return", "break", "continue"):
                outs.append(Out(o.kind, o.st, o.val, T.mul(ONE - c, o.g)))
        for r, g in ((r1, c), (r2, ONE - c)):
            for o in r:
                self.event(st, "reject", T.mul(g, o.g), o.val.name, o.val.msg)
        # a branch that raises is dropped: the remaining paths assume it is not taken
        only_r1 = r1 and not n1 and not [o for o in o1 if o.kind in ("return", "break", "continue")]
        only_r2 = r2 and not n2 and not [o for o in o2 if o.kind in ("return", "break", "continue")]
        if only_r1 and only_r2:
            return [r1[0]]
        if only_r1:
            return [Out(o.kind, o.st, o.val, o.g) for o in o2 if o.kind != "raise"]
        if only_r2:
            return [Out(o.kind, o.st, o.val, o.g) for o in o1 if o.kind != "raise"]
        if n1 and n2:
            j = self.join(c, n1[0].st, n2[0].st)
            j.pc = st.pc
            outs.append(Out("normal", j))
        elif n1:
            outs.append(n1[0])
        elif n2:
            outs.append(n2[0])
        else:
            # all exits: make last one total
            tot = [o for o in outs]
            if tot:
                tot[-1].g = ONE
        return outs

    def s_Try(self, s, st):
        self.handlers.append([h.type for h in s.handlers])
        try:
            outs = self.block(s.body, st)
        finally:
            self.handlers.pop()
        res = []
        for o in outs:
            if o.kind == "raise":
                handled = False
                for h in s.handlers:
                    if self.match_exc(h.type, o.val.name):
                        hs = o.st
                        if h.name:
                            self.setvar(hs, h.name, Opq("exc"))
                        res.extend(self.block(h.body, hs))
                        handled = True
                        break
                if not handled:
                    res.append(o)
            else:
                if o.kind == "normal" and s.orelse:
                    res.extend(self.block(s.orelse, o.st))
                else:
                    res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.block(s.finalbody, o.st):
                    if f.kind == "normal":
                        fin.append(Out(o.kind, f.st, o.val, o.g))
                    else:
                        fin.append(f)
            res = fin
        return self.merge_normals(res)

    def merge_normals(self, outs):
        ns = [o for o in outs if o.kind == "normal"]
        if len(ns) <= 1:
            return outs
        rest = [o for o in outs if o.kind != "normal"]
        return rest + [ns[-1]]

    def match_exc(self, t, name):
        if t is None:
            return True
        names = []
        if isinstance(t, ast.Tuple):
            names = [e.id if isinstance(e, ast.Name) else getattr(e, "attr", "") for e in t.elts]
        else:
            names = [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")]
        par = EXC_PARENTS.get(name, (name, "Exception", "BaseException"))
        return any(n in par for n in names)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.lib.enter(st, v), st)
        return self.block(s.body, st)

    # ------------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.for_over(st, it, s.target, s.body, s.orelse)

    def for_over(self, st, it, target, body, orelse=()):
        if isinstance(it, PhiV):
            return self.branch(it.c, lambda x: self.for_over(x, it.a, target, body, orelse),
                               lambda x: self.for_over(x, it.b, target, body, orelse), st)
        segs = self.lib.segs(st, it)
        if segs is None:
            self.note("loop over opaque iterable")
            v = Var("u", T.opaque("n"))
            elem = Opq("elem") if not isinstance(it, Opq) else Opq("elem:" + str(it.tag))
            segs = [Seg((v,), ONE, elem)]
        outs = []
        breaks = []
        cur = st
        if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].vars) == 1 and segs[0].vars[0].size.is_const \
                and segs[0].guard is ONE and segs[0].vars[0].size.cval > self.UNROLL:
            return self.counted_loop(cur, segs[0], target, body, orelse)
        expanded = []
        for sg in segs:
            if isinstance(sg, Seg) and len(sg.vars) == 1 and sg.vars[0].size.is_const and sg.guard is ONE:
                n = int(sg.vars[0].size.cval)
                for i in range(n):
                    expanded.append(Seg((), ONE, self.sub_val(sg.val, {sg.vars[0]: T.const(i)})))
            else:
                expanded.append(sg)
        for sg in expanded:
            if isinstance(sg, MuSeg):
                self.note("iteration over loop-carried list")
                v = Var("u", T.opaque("n"))
                sg = Seg((v,), ONE, Opq("muelem"))
            if not sg.vars:
                if sg.guard is ONE:
                    r = self.iterate_once(cur, sg.val, target, body)
                else:
                    r = self.branch(sg.guard, lambda x: self.iterate_once(x, sg.val, target, body),
                                    lambda x: [Out("normal", x)], cur)
            else:
                r = self.sym_loop(cur, sg, target, body)
            nxt = None
            for o in r:
                if o.kind == "normal":
                    nxt = o.st
                elif o.kind == "break":
                    breaks.append(o)
                else:
                    outs.append(o)
            cur = nxt
            if cur is None:
                break
        if cur is not None and orelse:
            r = self.block(orelse, cur)
            cur = None
            for o in r:
                if o.kind == "normal":
                    cur = o.st
                else:
                    outs.append(o)
        final = cur
        for b in reversed(breaks):
            if final is None:
                final = b.st
            else:
                final = self.join(b.g, b.st, final)
        if final is not None:
            outs.append(Out("normal", final))
        return outs

    def iterate_once(self, st, elem, target, body):
        self.assign(target, elem, st)
        outs = self.block(body, st)
        # fold continues into normal
        conts = [o for o in outs if o.kind == "continue"]
        ns = [o for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind not in ("continue", "normal")]
        if not conts:
            return outs
        fin = ns[0].st if ns else None
        for c in reversed(conts):
            fin = c.st if fin is None else self.join(c.g, c.st, fin)
        return rest + [Out("normal", fin)]

    # -- symbolic loop over independent index variables
    def sym_loop(self, st, sg, target, body):
        ren = {}
        lvs = []
        for v in sg.vars:
            w = Var(v.name.split("#")[0], T.subst(v.size, ren))
            ren[v] = T.idx(w)
            lvs.append(w)
        guard = T.subst(sg.guard, ren)
        elem = self.sub_val(sg.val, ren)
        lid = next(self._lid)
        mod_env, mod_loc = set(), set()
        res = None
        nev = len(self.events)
        nerr = len(self.errors)
        rnd0 = dict(self.rnd)
        elemwise = set()
        for attempt in range(6):
            del self.events[nev:]
            del self.errors[nerr:]
            self.rnd = dict(rnd0)
            s2 = st.copy()
            marks = {}
            self.place_marks(s2, st, lid, mod_env, mod_loc, marks, lvs, elemwise)
            self.loopvars.extend(lvs)
            s2.pc = T.mul(st.pc, guard)
            base = s2.copy()
            try:
                outs = self.iterate_once(s2, elem, target, body)
            except self.ElemRestart as e:
                key = e.args[0]
                if key[0] != lid or key[1] in elemwise:
                    raise
                elemwise.add(key[1])
                mod_loc.add(key[1])
                outs = []
                continue
            finally:
                del self.loopvars[len(self.loopvars) - len(lvs):]
            ns = [o for o in outs if o.kind == "normal"]
            brk = [o for o in outs if o.kind == "break"]
            cand = [o.st for o in ns + brk]
            m_env, m_loc = set(), set()
            for c in cand:
                e, l = self.changed(base, c)
                m_env |= e
                m_loc |= l
            if m_env <= mod_env and m_loc <= mod_loc:
                break
            mod_env |= m_env
            mod_loc |= m_loc
        raises = [o for o in outs if o.kind == "raise"]
        rets = [o for o in outs if o.kind == "return"]
        if raises and not ns and not brk and not rets:
            # every iteration raises; assume the collection empty is not interesting -> propagate
            return raises[:1]
        B = ZERO
        fin = ns[0].st if ns else None
        for o in reversed(brk):
            fin = o.st if fin is None else self.join(o.g, o.st, fin)
        for o in brk:
            B = T.or_(B, o.g)
        nb = ONE
        if brk:
            if self.has_mu(B, lid) or B.opaque or len(lvs) != 1:
                nb = None
            else:
                w = Var("w", lvs[0].size)
                bw = T.subst(T.mul(B, guard), {lvs[0]: T.idx(w)})
                nb = ONE - T.any_(w, T.mul(bw, T.lt(w, lvs[0])))
        result = st.copy()
        outs2 = []
        if fin is not None:
            g = T.mul(guard, nb) if nb is not None else None
            self.close_loop(result, st, fin, lid, lvs, g, mod_env, mod_loc, marks, target, elemwise)
        if rets:
            tot = ZERO
            for o in rets:
                tot = T.or_(tot, o.g)
            anyg = T.any_(lvs, tot, guard) if not self.has_mu(tot, lid) else T.app("truth", T.opaque("ret"), boolean=True)
            vals = [o.val for o in rets]
            if len(vals) == 1 and isinstance(vals[0], K):
                rv = vals[0]
            elif len(vals) == 1 and isinstance(vals[0], (N, Ref)) and len(lvs) == 1 and not self.has_mu(tot, lid):
                # first match
                v = lvs[0]
                w = Var("w", v.size)
                gw = T.mul(T.subst(tot, {v: T.idx(w)}), T.subst(guard, {v: T.idx(w)}))
                first = T.mul(T.mul(tot, guard), ONE - T.any_(w, T.mul(gw, T.lt(w, v))))
                pos = T.ssum(v, T.mul(first, T.idx(v)))
                rv = self.sub_val(vals[0], {v: pos})
            else:
                rv = self.opq("return in loop")
            outs2.append(Out("return", result.copy(), rv, anyg))
        result.pc = st.pc
        outs2.append(Out("normal", result))
        return outs2

    def has_mu(self, p, lid):
        if not isinstance(p, Poly):
            return False
        for a in T.all_atoms(p).values():
            if a.kind == "mu" and a.data[0] == lid:
                return True
        return False

    def changed(self, base, st):
        env, locs = set(), set()
        for loc, x in base.heap.items():
            y = st.heap.get(loc)
            if y is x or y is None:
                continue
            if isinstance(x, FrameC):
                for k in y.env:
                    if k in x.env:
                        if not self.same(x.env[k], y.env[k]):
                            env.add((loc, k))
                    else:
                        env.add((loc, k))
            elif isinstance(x, InstC):
                for k in y.attrs:
                    if k not in x.attrs or not self.same(x.attrs[k], y.attrs[k]):
                        env.add((loc, k))
                for k in x.attrs:
                    if k not in y.attrs:
                        env.add((loc, k))
            elif isinstance(x, ArrC):
                if not (x.val is y.val and x.miss is y.miss and self.same_dims(x, y)):
                    locs.add(loc)
            else:
                locs.add(loc)
        return env, locs

    def same_dims(self, x, y):
        return len(x.dims) == len(y.dims) and all(a.vars == b.vars and a.guard is b.guard for a, b in zip(x.dims, y.dims))

    def get_slot(self, st, loc, k):
        c = st.heap[loc]
        d = c.env if isinstance(c, FrameC) else c.attrs
        return d.get(k)

    def set_slot(self, st, loc, k, v):
        c = st.heap[loc]
        if isinstance(c, FrameC):
            env = dict(c.env)
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
            st.heap[loc] = FrameC(env, c.parent, c.fn, c.globs, c.nonloc)
        else:
            a = dict(c.attrs)
            if v is None:
                a.pop(k, None)
            else:
                a[k] = v
            st.heap[loc] = InstC(c.cls, a)

    def mu(self, lid, key, *args, **fl):
        return T.from_atom(T.mk_atom("mu", (lid, key) + tuple(args), **fl))

    def mu_like(self, st, lid, key, v):
        """placeholder value shaped like v"""
        v = self.undef_strip(v) if v is not None else None
        if isinstance(v, K) and isinstance(v.v, bool):
            return N(self.mu(lid, key, boolean=True), ZERO, "bool")
        if isinstance(v, K) and isinstance(v.v, (int, float)) or isinstance(v, N):
            k = self.kind(v)
            miss = ZERO
            if self.missof(v) is not ZERO:
                miss = self.mu(lid, key + "?", boolean=True)
            if k == "bool":
                return N(self.mu(lid, key, boolean=True), miss, k)
            # python ints may become floats while iterating: keep kind int only for counters
            return N(self.mu(lid, key), miss, "num" if k == "int" else k)
        if isinstance(v, Tup):
            return Tup([self.mu_like(st, lid, "%s.%d" % (key, i), x) for i, x in enumerate(v.items)])
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ArrC):
                return self.alloc(st, self.mu_arr(lid, key, c))
        return Opq("mu:%s" % key)

    def mu_arr(self, lid, key, c):
        args = [d.flat() for d in c.dims if d.vars]
        if any(d.guard is not ONE for d in c.dims):
            args = []
            for d in c.dims:
                args.extend(T.idx(v) for v in d.vars)
        miss = ZERO
        if c.miss is not ZERO:
            miss = self.mu(lid, key + "?", *args, boolean=True)
        return ArrC(c.dims, self.mu(lid, key, *args), miss, c.kind)

    def place_marks(self, s2, st, lid, mod_env, mod_loc, marks, lvs, elemwise=()):
        for loc, k in mod_env:
            if loc not in st.heap:
                continue
            v = self.get_slot(st, loc, k)
            if v is None:
                continue
            m = self.mu_like(s2, lid, "%s@%d" % (k, loc), v)
            marks[(loc, k)] = m
            self.set_slot(s2, loc, k, m)
        for loc in mod_loc:
            c = st.heap.get(loc)
            if isinstance(c, ArrC):
                s2.heap[loc] = self.mu_arr(lid, "@%d" % loc, c)
            elif isinstance(c, ListC):
                s2.heap[loc] = ListC([MuSeg((lid, loc))], c.kind)
                if loc in elemwise:
                    m = self.elem_mark(st, lid, loc, c)
                    if m is not None:
                        s2.heap[loc] = m
            elif isinstance(c, DictC):
                nd = DictC([MuEnt((lid, loc))], c.fun)
                s2.heap[loc] = nd

    def elem_mark(self, st, lid, loc, c):
        """a list updated in place by index: one placeholder per position"""
        if len(c.segs) != 1 or not isinstance(c.segs[0], Seg) or len(c.segs[0].vars) != 1 or c.segs[0].guard is not ONE:
            return None
        s = c.segs[0]
        v = s.vars[0]
        x = self.num(st, s.val) if isinstance(s.val, (K, N)) else None
        if x is None:
            return None
        b = self.kind(s.val) == "bool"
        miss = self.mu(lid, "@%d?" % loc, T.idx(v), boolean=True) if x[1] is not ZERO else ZERO
        return ListC([Seg((v,), ONE, N(self.mu(lid, "@%d" % loc, T.idx(v), boolean=b), miss, self.kind(s.val)))], c.kind)

    # closing -------------------------------------------------------------
    def close_loop(self, res, pre, fin, lid, lvs, guard, mod_env, mod_loc, marks, target, elemwise=()):
        """write closed forms of one summarised loop into res"""
        # adopt objects allocated inside the loop body
        for loc, c in fin.heap.items():
            if loc not in res.heap:
                res.heap[loc] = c
        if guard is None:
            for loc, k in mod_env:
                if loc in res.heap:
                    self.set_slot(res, loc, k, self.opq("loop with break"))
            for loc in mod_loc:
                res.heap[loc] = self.opaque_content(res.heap.get(loc))
            return
        full = guard is ONE
        # maps mu atoms of closed scalars to something usable? (kept simple: per location)
        for loc, k in sorted(mod_env, key=lambda t: (t[0], t[1])):
            if loc not in res.heap:
                continue
            init = self.get_slot(pre, loc, k)
            nxt = self.get_slot(fin, loc, k)
            if nxt is None:
                self.set_slot(res, loc, k, None)
                continue
            mark = marks.get((loc, k))
            self.set_slot(res, loc, k, self.close_val(res, pre, fin, lid, lvs, guard, init, mark, nxt, k))
        for loc in mod_loc:
            c0, c1 = pre.heap.get(loc), fin.heap.get(loc)
            if isinstance(c0, ArrC) and isinstance(c1, ArrC):
                r = self.close_arr(lid, "@%d" % loc, lvs, guard, c0, c1)
                if r is None:
                    self.note("array store not closed %s" % self.where())
                    r = ArrC(c0.dims, T.opaque("loopstore", *[d.flat() for d in c0.dims if d.vars]), ZERO, c0.kind)
                r.base = c0.base
                res.heap[loc] = r
            elif isinstance(c0, ListC) and isinstance(c1, ListC) and loc in elemwise:
                r = self.close_elems(pre, fin, lid, loc, lvs, guard, c0, c1)
                if r is None:
                    self.note("list store not closed")
                    r = self.opaque_content(c0)
                res.heap[loc] = r
            elif isinstance(c0, ListC) and isinstance(c1, ListC):
                res.heap[loc] = self.close_list(res, lid, loc, lvs, guard, c0, c1)
            elif isinstance(c0, DictC) and isinstance(c1, DictC):
                res.heap[loc] = self.close_dict(res, lid, loc, lvs, guard, c0, c1)
            else:
                res.heap[loc] = self.opaque_content(c0)

    def close_elems(self, pre, fin, lid, loc, lvs, guard, c0, c1):
        m = self.elem_mark(pre, lid, loc, c0)
        if m is None or len(c1.segs) != 1 or not isinstance(c1.segs[0], Seg) or len(c1.segs[0].vars) != 1:
            return None
        s0, s1, sm = c0.segs[0], c1.segs[0], m.segs[0]
        if s1.guard is not ONE or not isinstance(s1.val, (K, N)):
            return None
        w = s1.vars[0]
        ren = {s0.vars[0]: T.idx(w)}
        n0, n1 = self.num(pre, self.sub_val(s0.val, ren)), self.num(fin, s1.val)
        mk = self.sub_val(sm.val, ren)
        if n0 is None or n1 is None:
            return None
        v = self.close_poly(mk.val, lid, lvs, guard, n0[0], n1[0], [w])
        if v is None:
            return None
        miss = ZERO
        if n1[1] is not ZERO or n0[1] is not ZERO:
            if mk.miss is ZERO:
                return None
            miss = self.close_poly(mk.miss, lid, lvs, guard, n0[1], n1[1], [w])
            if miss is None:
                return None
        return ListC([Seg((w,), ONE, N(v, miss, self.kind(s1.val)))], c0.kind)

    def opaque_content(self, c):
        if isinstance(c, ArrC):
            return ArrC(c.dims, T.opaque("havoc", *[d.flat() for d in c.dims if d.vars]), ZERO, c.kind)
        if isinstance(c, ListC):
            v = Var("u", T.opaque("n"))
            return ListC([Seg((v,), ONE, Opq("elem"))], c.kind)
        if isinstance(c, DictC):
            v = Var("u", T.opaque("n"))
            return DictC([Ent((v,), ONE, Opq("key"), Opq("val"))])
        return c

    def close_val(self, res, pre, fin, lid, lvs, guard, init, mark, nxt, name):
        nxt = self.undef_strip(nxt)
        i0 = self.undef_strip(init) if init is not None else None
        if mark is not None and self.same(mark, nxt):
            return init
        n1 = self.num(fin, nxt) if isinstance(nxt, (K, N)) else None
        if n1 is not None and i0 is not None and isinstance(i0, (K, N)) and isinstance(mark, N):
            n0 = self.num(pre, i0)
            if n0 is not None:
                k = self.kind(nxt)
                v = self.close_poly(mark.val, lid, lvs, guard, n0[0], n1[0], [])
                if v is not None:
                    miss = ZERO
                    if n1[1] is not ZERO or n0[1] is not ZERO:
                        mm = mark.miss if mark.miss is not ZERO else None
                        if mm is None:
                            miss = T.any_(lvs, n1[1], guard) if not self.has_mu(n1[1], lid) else T.app("truth", T.opaque("miss"), boolean=True)
                        else:
                            miss = self.close_poly(mm, lid, lvs, guard, n0[1], n1[1], [])
                            if miss is None:
                                miss = T.app("truth", T.opaque("miss"), boolean=True)
                    kk = k if k == self.kind(i0) else "num"
                    return self.simp(N(v, miss, kk))
        if n1 is not None and mark is not None and not self.has_mu(n1[0], lid) and guard is ONE and all(v.size.opaque is False for v in lvs):
            last = {v: v.size - 1 for v in lvs}
            return self.simp(N(T.subst(n1[0], last), T.subst(n1[1], last), self.kind(nxt)))
        if init is None:
            # loop-local variable: value of the last iteration
            if guard is ONE and not self.val_has_mu(fin, nxt, lid):
                last = {v: v.size - 1 for v in lvs}
                try:
                    return self.sub_val(nxt, last)
                except Exception:
                    pass
            return Opq("after-loop:" + name)
        if isinstance(nxt, K) and not isinstance(nxt.v, (int, float)):
            return PhiV(T.gt0(T.ssum(lvs, guard)), nxt, init)
        if isinstance(nxt, Tup) and isinstance(i0, Tup) and isinstance(mark, Tup) and len(nxt.items) == len(i0.items) == len(mark.items):
            return Tup([self.close_val(res, pre, fin, lid, lvs, guard, a, m, b, name) for a, m, b in zip(i0.items, mark.items, nxt.items)])
        if isinstance(nxt, Ref) and isinstance(i0, Ref) and isinstance(mark, Ref):
            c1, c0 = self.content(fin, nxt), self.content(pre, i0)
            cm = self.content(fin, mark)
            if isinstance(c1, ArrC) and isinstance(c0, ArrC) and isinstance(cm, ArrC):
                mm = cm.val.mono()
                key = mm[1][0][0].data[1] if mm and mm[1] and mm[1][0][0].kind == "mu" else None
                r = self.close_arr(lid, key, lvs, guard, c0, c1) if key else None
                if r is not None:
                    return self.alloc(res, r)
        if isinstance(nxt, Ref) and isinstance(i0, Ref) and isinstance(mark, Opq):
            c1, c0 = self.content(fin, nxt), self.content(pre, i0)
            if isinstance(c1, ListC) and isinstance(c0, ListC):
                # x = x + [..] rebinding is handled when the base list is recognisable
                pass
        self.note("loop-carried %s not closed" % name)
        return Opq("loop:" + name)

    def val_has_mu(self, st, v, lid):
        if isinstance(v, N):
            return self.has_mu(v.val, lid) or self.has_mu(v.miss, lid)
        if isinstance(v, Tup):
            return any(self.val_has_mu(st, x, lid) for x in v.items)
        if isinstance(v, PhiV):
            return self.has_mu(v.c, lid) or self.val_has_mu(st, v.a, lid) or self.val_has_mu(st, v.b, lid)
        if isinstance(v, Ref):
            c = self.content(st, v)
            if isinstance(c, ArrC):
                return self.has_mu(c.val, lid)
        return False

    def close_poly(self, mu, lid, lvs, guard, init, nxt, own):
        """closed form of x_{v+1} = nxt(x_v, v) starting from init, or None.
        mu: the Poly (single atom) standing for the carried value; own: the element's own index vars"""
        mm = mu.mono()
        at = mm[1][0][0]
        # split nxt = a*mu + b
        a, b = {}, {}
        for m, c in nxt.terms.items():
            e = None
            rest = []
            for x, ex in m:
                if x is at:
                    e = ex
                else:
                    rest.append((x, ex))
            if e is None:
                b[m] = c
            elif e == 1:
                a[tuple(rest)] = a.get(tuple(rest), 0) + c
            else:
                return None
        pa, pb = T.mk_poly(a), T.mk_poly(b)
        if self.has_mu(pa, lid) or self.has_mu(pb, lid):
            return self.close_special(at, mu, lid, lvs, guard, init, nxt)
        if pa is ONE:
            return init + T.ssum(lvs, pb, guard)
        if pa is ZERO:
            # overwritten in every iteration
            if not (pb.free & set(lvs)) and guard is ONE:
                return pb
            return None
        g = ONE - pa           # store condition
        g2 = T.mul(g, guard)
        if T.mul(g, g) is not g:
            return None
        rest = ZERO if self.quot_bool(pb, g) is not None else T.mul(pb, ONE - g)
        if rest is not ZERO:
            # additive part outside the overwritten region: only handle pure cases
            return None
        # exclusive stores: each loop var determined by own indices through equalities
        det = self.determined(g, lvs)
        if det:
            tot = T.ssum(lvs, g2)
            return T.mul(ONE - tot, init) + T.ssum(lvs, T.mul(pb, guard))
        # idempotent store of a loop-independent value
        t = self.quot_bool(pb, g)
        if t is not None and not (t.free & set(lvs)):
            c = T.any_(lvs, g2)
            return T.phi(c, t, init)
        return None

    def quot_bool(self, b, g):
        """t with b == g*t when b's monomials all carry g's monomial (single-monomial g)"""
        mm = g.mono()
        if not mm or mm[0] != 1:
            if b is ZERO:
                return ZERO
            # try constants
            for c in list(b.terms.values())[:1]:
                if T.scale(g, c / next(iter(g.terms.values()))) is b:
                    return T.const(c / next(iter(g.terms.values())))
            return None
        ga = set(a for a, e in mm[1])
        out = {}
        for m, c in b.terms.items():
            ms = [a for a, e in m]
            if not ga <= set(ms):
                return None
            k = tuple((a, e) for a, e in m if a not in ga)
            out[k] = out.get(k, 0) + c
        return T.mk_poly(out)

    def determined(self, g, lvs):
        """every monomial of g fixes every loop var by an equality (g as sum of exclusive deltas)"""
        for m in g.terms:
            left = set(lvs)
            prog = True
            while prog and left:
                prog = False
                for v in list(left):
                    t = T._delta(v, m)
                    if t is not None and not (t.free & left - {v}):
                        left.discard(v)
                        prog = True
            if left:
                return False
        return True

    def close_special(self, at, mu, lid, lvs, guard, init, nxt):
        # running maximum / minimum: phi([t > mu], t, mu)
        for b in nxt.atoms():
            if b.kind in ("gt0", "ge0") and any(x is at for x in T.all_atoms(b.data[0]).values()):
                p = b.data[0]
                t = p + mu
                for cand, kind in ((p + mu, "rmax"), (mu - p, "rmin")):
                    if self.has_mu(cand, lid):
                        continue
                    c = T.from_atom(b)
                    for form in (T.phi(c, cand, mu), T.phi(ONE - c, cand, mu), T.phi(c, mu, cand), T.phi(ONE - c, mu, cand)):
                        if form is nxt:
                            # which extremum? c=[p>0]
                            take_when_c = form is T.phi(c, cand, mu)
                            if kind == "rmax":       # p = cand - mu
                                mx = take_when_c
                            else:                    # p = mu - cand
                                mx = not take_when_c
                            return self.fold_ext("rmax" if mx else "rmin", lvs, guard, cand, init)
        # guarded running max: phi(h, phi([t>mu], t, mu), mu)
        atoms = T.all_atoms(nxt).values()
        for b in atoms:
            if b.kind in ("gt0", "ge0") and any(x is at for x in b.data[0].atoms()):
                p = b.data[0]
                for cand, sg in ((p + mu, 1), (mu - p, -1)):
                    if self.has_mu(cand, lid):
                        continue
                    c = T.from_atom(b)
                    # nxt - mu == h * c' * (cand - mu)
                    diff = nxt - mu
                    for cc, mx in ((c, sg > 0), (ONE - c, sg < 0)):
                        base = T.mul(cc, cand - mu)
                        h = self.div_by(diff, base, at)
                        if h is not None and not self.has_mu(h, lid):
                            return self.fold_ext("rmax" if mx else "rmin", lvs, T.mul(guard, h), cand, init)
        mm = nxt.mono()
        if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][0].kind == "max":
            x, y = mm[1][0][0].data
            o = y if x is mu else (x if y is mu else None)
            if o is not None and not self.has_mu(o, lid):
                return self.fold_ext("rmax", lvs, guard, o, init)
        return None

    def div_by(self, p, q, at):
        """h with p == h*q, trying h = ratio of coefficients of a probe monomial"""
        if p is ZERO:
            return ZERO
        # take monomials of q containing `at`
        best = None
        for m, c in q.terms.items():
            if any(x is at for x, e in m):
                ms = dict(m)
                hs = {}
                for m2, c2 in p.terms.items():
                    d2 = dict(m2)
                    if all(d2.get(x) == e for x, e in ms.items()):
                        rest = tuple(sorted(((x, e) for x, e in d2.items() if x not in ms), key=lambda t: t[0].digest))
                        hs[rest] = c2 / c
                h = T.mk_poly(hs)
                if hs and T.mul(h, q) is p:
                    return h
        return None

    def fold_ext(self, kind, lvs, guard, t, init):
        r = T.red(kind, lvs, t, guard) if guard is not ONE else T.red(kind, lvs, t)
        # where the guard is empty the initial value stands
        if kind == "rmax":
            return T.max_(init, r)
        return T.min_(init, r)

    def close_arr(self, lid, key, lvs, guard, c0, c1):
        u = self.unify_dims(c1, c0)
        if u is None:
            return None
        c1, c0 = u
        args = [d.flat() for d in c1.dims if d.vars]
        if any(d.guard is not ONE for d in c1.dims):
            args = []
            for d in c1.dims:
                args.extend(T.idx(v) for v in d.vars)
        mu = self.mu(lid, key, *args)
        mum = self.mu(lid, key + "?", *args, boolean=True)
        own = [v for d in c1.dims for v in d.vars]
        v = None
        v1, v0, m1, m0 = c1.val, c0.val, c1.miss, c0.miss
        if m0 is ONE and m1 is not ONE:
            # array of NaN being filled: where still NaN the value is immaterial
            v1 = _replace_atom(v1, mu, ZERO)
            mmm = self.close_poly(mum, lid, lvs, guard, m0, m1, own)
            if mmm is None:
                return None
            if not self.has_mu(v1, lid):
                g = ONE - _coef(m1, mum)
                # value under store condition
                val = self.close_poly(mu, lid, lvs, guard, ZERO, T.mul(ONE - g, mu) + T.mul(g, v1), own)
            else:
                val = self.close_poly(mu, lid, lvs, guard, ZERO, c1.val, own)
            if val is None:
                return None
            return self.norm_arr(ArrC(c1.dims, val, mmm, c1.kind))
        v = self.close_poly(mu, lid, lvs, guard, v0, v1, own)
        if v is None:
            return None
        miss = ZERO
        if m1 is not ZERO or m0 is not ZERO:
            if m0 is ZERO:
                # marks had no missing flag
                nm = T.mul(_store_cond(v1, mu), m1) if False else None
                miss = self.close_miss(mu, lid, lvs, guard, v1, m1)
                if miss is None:
                    return None
            else:
                miss = self.close_poly(mum, lid, lvs, guard, m0, m1, own)
                if miss is None:
                    return None
        return self.norm_arr(ArrC(c1.dims, v, miss, c1.kind))

    def close_miss(self, mu, lid, lvs, guard, v1, m1):
        if self.has_mu(m1, lid):
            return None
        if self.determined_any(m1, lvs):
            return T.ssum(lvs, T.mul(m1, guard))
        if not (m1.free & set(lvs)):
            return m1
        return None

    def determined_any(self, g, lvs):
        return self.determined(g, lvs)

    def close_list(self, res, lid, loc, lvs, guard, c0, c1):
        segs = c1.segs
        if segs and isinstance(segs[0], MuSeg) and segs[0].key == (lid, loc) and \
                not any(isinstance(s, MuSeg) for s in segs[1:]):
            new = segs[1:]
            out = list(c0.segs)
            if len(new) == 1:
                s = new[0]
                out.append(Seg(tuple(lvs) + s.vars, T.mul(guard, s.guard), s.val))
            elif new:
                # several segments per iteration, in order
                if self.exclusive(new):
                    # at most one of them per iteration: a single segment with a phi value
                    g = ZERO
                    val = None
                    for s in reversed(new):
                        val = s.val if val is None else self.phi(res, s.guard, s.val, val)
                        g = g + s.guard
                    out.append(Seg(tuple(lvs), T.mul(guard, g), val))
                elif all(not s.vars for s in new):
                    kv = Var("k", len(new))
                    val = None
                    g = ZERO
                    for i, s in reversed(list(enumerate(new))):
                        c = T.eq(kv, i)
                        val = s.val if val is None else PhiV(c, s.val, val)
                        g = g + T.mul(c, s.guard)
                    out.append(Seg(tuple(lvs) + (kv,), T.mul(guard, g), val))
                else:
                    self.note("list with several segments per iteration")
                    return self.opaque_content(c0)
            return ListC(out, c1.kind)
        # element overwritten: list of const/symbolic elements handled in lib.setitem as family
        if len(segs) == 1 and isinstance(segs[0], Seg) and len(c0.segs) == 1 and isinstance(c0.segs[0], Seg):
            pass
        self.note("list not closed")
        return self.opaque_content(c0)

    def exclusive(self, segs):
        if any(s.vars for s in segs):
            return False
        for i, a in enumerate(segs):
            for b in segs[i + 1:]:
                if T.mul(a.guard, b.guard) is not ZERO:
                    return False
        return True

    def close_dict(self, res, lid, loc, lvs, guard, c0, c1):
        ents = c1.ents
        if ents and isinstance(ents[0], MuEnt) and ents[0].key == (lid, loc) and \
                not any(isinstance(e, MuEnt) for e in ents[1:]):
            d = DictC(list(c0.ents), c0.fun)
            for e in ents[1:]:
                kt = self.term(res, e.key)
                if not e.vars and not (kt.free & set(lvs)) and not kt.opaque:
                    # constant key overwritten in each iteration
                    if self.same_key_in(d, e.key):
                        self.note("dict key overwritten in loop")
                    v = e.val
                    g = T.any_(lvs, T.mul(guard, e.guard))
                    dep = True
                    if isinstance(v, (K,)):
                        dep = False
                    elif isinstance(v, N):
                        dep = bool(v.val.free & set(lvs)) or self.has_mu(v.val, lid)
                    d.ents.append(Ent((), g, e.key, v if not dep else self.opq("last value for key")))
                else:
                    d.ents.append(Ent(tuple(lvs) + e.vars, T.mul(guard, e.guard), e.key, e.val))
            return d
        self.note("dict not closed")
        return self.opaque_content(c0)

    def same_key_in(self, d, key):
        return any(isinstance(e, Ent) and not e.vars and self.same(e.key, key) for e in d.ents)

    # -- while loops ---------------------------------------------------------
    def s_While(self, s, st):
        cond = lambda x: self.truth(x, self.ev(s.test, x))
        if not isinstance(s.test, ast.Constant) or getattr(self, "unroll_true", False):
            r = self.definite_loop(st, cond, s.body, s.orelse)
            if isinstance(r, tuple):
                st = r[1]
            elif r is not None:
                return r
        return self.mu_loop(st, cond, s.body, s.orelse, site=self.where())

    def reshaped(self, st, s2):
        """a variable of the current frame holds a scalar in st and an array in s2"""
        a, b = st.heap.get(self.frame), s2.heap.get(self.frame)
        for k, v in getattr(a, "env", {}).items():
            w = b.env.get(k)
            if isinstance(v, (K, N)) and isinstance(w, Ref) and isinstance(self.content(s2, w), ArrC):
                return True
        return False

    def definite_loop(self, st, cond, body, orelse):
        """a while loop whose condition is decided by constants at every turn (None: it is not one)"""
        nev, nerr, rnd0, loops0 = len(self.events), len(self.errors), dict(self.rnd), dict(self.loops)
        cur = st.copy()
        outs, breaks = [], []
        for turn in range(getattr(self, "unroll_true", 24)):
            t = cond(cur)
            if t is ZERO:
                break
            if t is not ONE:
                last, cur = cur, False
                break
            nxt = None
            for o in self.iterate_once_while(cur, body):
                if o.kind == "normal":
                    nxt = o.st
                elif o.kind == "break":
                    breaks.append(o)
                else:
                    outs.append(o)
            cur = nxt
            if cur is None:
                break
        else:
            cur = False
        if cur is False and turn == 1 and not outs and not breaks and self.reshaped(st, last):
            return ("peel", last)
        if cur is False:
            del self.events[nev:]
            del self.errors[nerr:]
            self.rnd, self.loops = rnd0, loops0
            return None
        if cur is not None and orelse:
            r = self.block(orelse, cur)
            cur = None
            for o in r:
                if o.kind == "normal":
                    cur = o.st
                else:
                    outs.append(o)
        final = cur
        for b in reversed(breaks):
            final = b.st if final is None else self.join(b.g, b.st, final)
        if final is not None:
            # the caller continues with its own state object
            st.heap, st.pc = final.heap, final.pc
            outs.append(Out("normal", st))
        return outs

    def counted_loop(self, st, sg, target, body, orelse):
        """for x in range(<large constant>): as a while loop with an explicit counter"""
        n = sg.vars[0].size
        cname = "__ctr%d" % next(self._lid)
        self.setvar(st, cname, K(0))

        def cond(x):
            return T.lt(self.term(x, self.lookup(x, cname)), n)

        def pre(x):
            c = self.lookup(x, cname)
            self.assign(target, self.simp(self.sub_val(sg.val, {sg.vars[0]: self.term(x, c)})), x)

        def post(x):
            c = self.lookup(x, cname)
            self.setvar(x, cname, self.simp(N(self.term(x, c) + 1, ZERO, "int")))
        return self.mu_loop(st, cond, body, orelse, site=self.where(), pre=pre, post=post)

    def mu_loop(self, st, cond, body, orelse, site, pre=None, post=None):
        lid = next(self._lid)
        T.FREE_MU.add(lid)
        L = Loop(lid, site)
        L.func = self.fstack[-1] if self.fstack else ""
        first = cond(st)           # condition on entry
        if first is ZERO:
            return self.block(orelse, st) if orelse else [Out("normal", st)]
        mod_env, mod_loc = set(), set()
        nev = len(self.events)
        nerr = len(self.errors)
        rnd0 = dict(self.rnd)
        saved_loops = dict(self.loops)
        for attempt in range(6):
            del self.events[nev:]
            del self.errors[nerr:]
            self.rnd = dict(rnd0)
            self.loops = dict(saved_loops)
            s2 = st.copy()
            marks = {}
            self.place_marks_mu(s2, st, lid, mod_env, mod_loc, marks)
            base = s2.copy()
            hc = cond(s2)
            if pre:
                pre(s2)
            outs = self.iterate_once_while(s2, body)
            ns = [o for o in outs if o.kind == "normal"]
            brk = [o for o in outs if o.kind == "break"]
            if post:
                for o in ns:
                    post(o.st)
            m_env, m_loc = set(), set()
            for o in ns + brk:
                e, l = self.changed(base, o.st)
                m_env |= e
                m_loc |= l
            if m_env <= mod_env and m_loc <= mod_loc:
                break
            mod_env |= m_env
            mod_loc |= m_loc
        rets = [o for o in outs if o.kind in ("return", "raise")]
        self.loops[lid] = L
        nxt = ns[0].st if ns else None
        for loc, k in mod_env:
            if loc not in st.heap:
                continue
            L.init[(k, loc)] = self.get_slot(st, loc, k)
            L.next[(k, loc)] = self.get_slot(nxt, loc, k) if nxt is not None and loc in nxt.heap else None
        for loc in mod_loc:
            L.init[("@", loc)] = st.heap.get(loc)
            L.next[("@", loc)] = nxt.heap.get(loc) if nxt is not None else None
        L.fun = {}
        if nxt is not None:
            try:
                self.loop_funs(L, st, nxt, base, mod_env, mod_loc, marks)
            except Exception as e:
                self.note("loop functions: %s" % e)
        L.pre_heap = st
        L.next_heap = nxt
        L.marks = marks
        for o in brk:
            L.exits.append(("break", o.g))
        L.head = hc
        L.first = first
        result = None
        if hc is ONE or (first is ONE and nxt is not None):
            # leaves either by a break or after at least one complete iteration
            cands = list(brk)
            if hc is not ONE and nxt is not None:
                nc = cond(nxt)
                L.exits.append(("cond", ONE - nc))
                cands.append(Out("break", nxt, None, ONE - nc))
            elif hc is ONE and nxt is not None:
                pass
            if not cands:
                if rets:
                    return rets
                self.event(st, "infinite_loop", L.site)
                return []
            result = cands[-1].st
            for o in reversed(cands[:-1]):
                result = self.join(o.g, o.st, result)
        else:
            L.exits.append(("head", ONE - hc))
            result = base if True else None
            for o in reversed(brk):
                result = self.join(T.mul(hc, o.g), o.st, result)
            self.note("while loop that may run zero times")
        result = result.copy()
        result.pc = st.pc
        outs2 = [o for o in rets if o.kind == "return"]
        if orelse:
            return outs2 + self.block(orelse, result)
        return outs2 + [Out("normal", result)]

    def iterate_once_while(self, st, body):
        outs = self.block(body, st)
        conts = [o for o in outs if o.kind == "continue"]
        ns = [o for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind not in ("continue", "normal")]
        if not conts:
            return outs
        fin = ns[0].st if ns else None
        for c in reversed(conts):
            fin = c.st if fin is None else self.join(c.g, c.st, fin)
        return rest + [Out("normal", fin)]

    def place_marks_mu(self, s2, st, lid, mod_env, mod_loc, marks):
        for loc, k in mod_env:
            if loc not in st.heap:
                continue
            v = self.get_slot(st, loc, k)
            if v is None:
                continue
            m = self.mu_like(s2, lid, "%s@%d" % (k, loc), v)
            marks[(loc, k)] = m
            self.set_slot(s2, loc, k, m)
        for loc in mod_loc:
            c = st.heap.get(loc)
            if isinstance(c, ArrC):
                s2.heap[loc] = self.mu_arr(lid, "@%d" % loc, c)
                s2.heap[loc].base = c.base
                marks[(loc, None)] = s2.heap[loc]
            elif isinstance(c, (ListC, DictC)):
                s2.heap[loc] = self.opaque_content(c)

    def loop_funs(self, L, st, nxt, head, mod_env, mod_loc, marks):
        """L.fun[key] = (formal index vars, value before the loop, value after one iteration)"""
        def scalar(key, m, a, b):
            for suf, pm, pick in (("", m.val, 0), ("?", m.miss, 1)):
                mm = pm.mono()
                if mm and mm[1] and mm[1][0][0].kind == "mu":
                    na, nb = self.num(st, a), self.num(nxt, b)
                    L.fun[mm[1][0][0].data[1]] = ((), na[pick] if na else None, nb[pick] if nb else None)

        def array(m, a, b):
            for suf, pm, pick in (("", m.val, 0), ("?", m.miss, 1)):
                mm = pm.mono()
                if not (mm and mm[1] and mm[1][0][0].kind == "mu"):
                    continue
                at = mm[1][0][0]
                args = at.data[2:]
                vs = []
                for t in args:
                    tm = t.mono()
                    if not tm or tm[1][0][0].kind != "idx" or len(tm[1]) != 1 or tm[0] != 1:
                        vs = None
                        break
                    vs.append(tm[1][0][0].data[0])
                if vs is None:
                    L.fun[at.data[1]] = None
                    continue
                out = []
                for x in (a, b):
                    u = self.unify_dims(m, x) if isinstance(x, ArrC) else None
                    if u is None or not self.same_dims(u[0], m):
                        out.append(None)
                    else:
                        out.append(u[1].val if pick == 0 else u[1].miss)
                L.fun[at.data[1]] = (tuple(vs), out[0], out[1])

        def rec(m, a, b):
            a = self.undef_strip(a) if a is not None else None
            b = self.undef_strip(b) if b is not None else None
            if isinstance(m, N):
                if a is not None and b is not None:
                    scalar(None, m, a, b)
            elif isinstance(m, Tup):
                for i, x in enumerate(m.items):
                    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(m.items) == len(b.items):
                        rec(x, a.items[i], b.items[i])
            elif isinstance(m, Ref):
                cm = head.heap.get(m.loc)
                if isinstance(cm, ArrC) and a is not None and b is not None:
                    array(cm, self.lib.arrc(st, a), self.lib.arrc(nxt, b))
        for loc, k in mod_env:
            m = marks.get((loc, k))
            if m is not None and loc in nxt.heap:
                rec(m, self.get_slot(st, loc, k), self.get_slot(nxt, loc, k))
        for loc in mod_loc:
            m = marks.get((loc, None))
            if m is not None:
                array(m, st.heap.get(loc), nxt.heap.get(loc))

    def loc_name(self, st, loc):
        fr = st.heap.get(self.frame)
        for k, v in fr.env.items():
            if isinstance(v, Ref) and v.loc == loc:
                return k
        return "%d" % loc

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opq("expr " + type(e).__name__)
        try:
            return m(e, st)
        except (Raise, Abort, RecursionError, self.ElemRestart):
            raise
        except Exception as x:
            if DEBUG:
                raise
            self.note("internal %s: %s in %s" % (type(x).__name__, str(x)[:60], type(e).__name__))
            return Opq("internal")

    def e_Constant(self, e, st):
        return K(e.value)

    def e_Name(self, e, st):
        return self.lookup(st, e.id)

    def e_JoinedStr(self, e, st):
        parts = []
        const = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, st)
                if isinstance(x, K) and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(K(str(x.v)))
                else:
                    const = False
                    parts.append(x)
        return self.lib.strcat(st, parts)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                sg = self.lib.segs(st, v)
                if sg is not None and all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in sg):
                    items.extend(s.val for s in sg)
                else:
                    return self.opq("star tuple")
            else:
                items.append(self.ev(x, st))
        return Tup(items)

    def e_List(self, e, st):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sg = self.lib.segs(st, self.ev(x.value, st))
                if sg is None:
                    return self.opq("star list")
                segs.extend(sg)
            else:
                segs.append(Seg((), ONE, self.ev(x, st)))
        return self.alloc(st, ListC(segs))

    def e_Set(self, e, st):
        return self.alloc(st, ListC([Seg((), ONE, self.ev(x, st)) for x in e.elts], "set"))

    def e_Dict(self, e, st):
        d = DictC([])
        ref = self.alloc(st, d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(st, ref, self.ev(v, st))
            else:
                kv = self.ev(k, st)
                vv = self.ev(v, st)
                self.lib.setitem(st, ref, kv, vv)
        return ref

    def e_Lambda(self, e, st):
        return self.make_fn_lambda(e, st)

    def make_fn_lambda(self, e, st):
        fr = st.heap[self.frame]
        defaults = [self.ev(d, st) for d in e.args.defaults]
        self.escaped.add(self.frame)
        return Fn(e, self.frame, fr.fn[0], None, "<lambda>", defaults)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            c = self.truth(st, v)
            return self.simp(N(ONE - c, ZERO, "bool"))
        return self.lib.unop(st, type(e.op).__name__, v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.lib.binop(st, type(e.op).__name__, a, b)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = None
        cond = ONE
        vals = []
        # evaluate left to right with short circuit on known values
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            c = self.truth(st, v)
            if i == len(e.values) - 1:
                vals.append((v, c))
                break
            if isand and c is ZERO:
                vals.append((v, c))
                break
            if not isand and c is ONE:
                vals.append((v, c))
                break
            if (isand and c is ONE) or (not isand and c is ZERO):
                continue
            vals.append((v, c))
        if len(vals) == 1:
            return vals[0][0]
        allbool = all(self.kind(v) == "bool" for v, c in vals)
        if allbool:
            r = T.and_(*[c for v, c in vals]) if isand else T.or_(*[c for v, c in vals])
            return self.simp(N(r, ZERO, "bool"))
        out = vals[-1][0]
        for v, c in reversed(vals[:-1]):
            out = self.phi(st, c, out, v) if isand else self.phi(st, c, v, out)
        return out

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            v = self.lib.compare(st, type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, K) and not res.v:
                    return res
                if isinstance(res, Ref) or isinstance(v, Ref):
                    res = self.lib.binop(st, "BitAnd", res, v)
                else:
                    res = self.simp(N(T.and_(self.truth(st, res), self.truth(st, v)), ZERO, "bool"))
            if isinstance(res, K) and res.v is False:
                return res
            left = right
        return res

    def e_IfExp(self, e, st):
        c = self.truth(st, self.ev(e.test, st))
        if c is ONE:
            return self.ev(e.body, st)
        if c is ZERO:
            return self.ev(e.orelse, st)
        h1 = st.copy()
        h2 = st.copy()
        h1.pc = T.mul(st.pc, c)
        h2.pc = T.mul(st.pc, ONE - c)
        a = b = None
        try:
            a = self.ev(e.body, h1)
        except Raise as r:
            self.event(st, "reject", c, r.name, r.msg)
        try:
            b = self.ev(e.orelse, h2)
        except Raise as r:
            self.event(st, "reject", ONE - c, r.name, r.msg)
            if a is None:
                raise
        j = self.join(c, h1, h2)
        st.heap = j.heap
        if a is None:
            return b
        if b is None:
            return a
        return self.phi(st, c, a, b)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(st, o, e.attr)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev_index(e.slice, st)
        return self.lib.getitem(st, o, k)

    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            return SliceV(*[self.ev(x, st) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return Tup([self.ev_index(x, st) for x in e.elts])
        return self.ev(e, st)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_ListComp(self, e, st):
        return self.alloc(st, ListC(self.comp(e, st)))

    def e_GeneratorExp(self, e, st):
        return SeqV(self.comp(e, st), "gen")

    def e_SetComp(self, e, st):
        return self.alloc(st, ListC(self.comp(e, st), "set"))

    def e_DictComp(self, e, st):
        segs = self.comp(e, st, pair=True)
        d = DictC([])
        ref = self.alloc(st, d)
        for s in segs:
            if not s.vars and s.guard is ONE:
                self.lib.setitem(st, ref, s.val.items[0], s.val.items[1])
            elif isinstance(s.val, Tup):
                d = st.heap[ref.loc]
                st.heap[ref.loc] = DictC(d.ents + [Ent(s.vars, s.guard, s.val.items[0], s.val.items[1])], d.fun)
            else:
                return self.opq("dictcomp")
        return ref

    def comp(self, e, st, pair=False):
        """evaluate a comprehension into segments"""
        # new scope: reuse frame but save/restore target names
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fr = st.heap[self.frame]
        saved = {n: fr.env.get(n) for n in names}
        out = []

        def rec(i, vars, guard):
            if i == len(e.generators):
                if pair:
                    v = Tup([self.ev(e.key, st), self.ev(e.value, st)])
                else:
                    v = self.ev(e.elt, st)
                out.append(Seg(vars, guard, v))
                return
            g = e.generators[i]
            it = self.ev(g.iter, st)
            segs = self.lib.segs(st, it)
            if segs is None:
                self.note("comprehension over opaque")
                u = Var("u", T.opaque("n"))
                segs = [Seg((u,), ONE, Opq("elem"))]
            for sg in segs:
                if isinstance(sg, MuSeg):
                    self.note("comprehension over loop-carried list")
                    u = Var("u", T.opaque("n"))
                    sg = Seg((u,), ONE, Opq("muelem"))
                if len(sg.vars) == 1 and sg.vars[0].size.is_const and sg.vars[0].size.cval <= self.UNROLL and sg.guard is ONE:
                    subs = [Seg((), ONE, self.sub_val(sg.val, {sg.vars[0]: T.const(j)})) for j in range(int(sg.vars[0].size.cval))]
                else:
                    subs = [sg]
                for s1 in subs:
                    ren = {}
                    lv = []
                    for v in s1.vars:
                        w = Var(v.name.split("#")[0], T.subst(v.size, ren))
                        ren[v] = T.idx(w)
                        lv.append(w)
                    gg = T.subst(s1.guard, ren)
                    val = self.sub_val(s1.val, ren)
                    self.loopvars.extend(lv)
                    try:
                        self.assign(g.target, val, st)
                        cc = gg
                        dead = False
                        for cnd in g.ifs:
                            c = self.truth(st, self.ev(cnd, st))
                            cc = T.mul(cc, c)
                            if cc is ZERO:
                                dead = True
                                break
                        if not dead:
                            rec(i + 1, tuple(vars) + tuple(lv), T.mul(guard, cc))
                    finally:
                        if lv:
                            del self.loopvars[len(self.loopvars) - len(lv):]
        rec(0, (), ONE)
        for n, v in saved.items():
            f = st.heap[self.frame]
            env = dict(f.env)
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
            st.heap[self.frame] = FrameC(env, f.parent, f.fn, f.globs, f.nonloc)
        return out

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e, st)
        fv = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                sg = self.lib.segs(st, v)
                if sg is not None and all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in sg):
                    args.extend(s.val for s in sg)
                else:
                    args.append(StarArg(v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.content(st, v)
                if isinstance(c, DictC) and c.fun is None and all(isinstance(x, Ent) and isinstance(x.key, K) for x in c.ents):
                    for x in c.ents:
                        if x.guard is ONE:
                            kwargs[x.key.v] = x.val
                        else:
                            kwargs[x.key.v] = PhiV(x.guard, x.val, K(UNDEF))
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        fr = st.heap.get(self.frame)
        self.site = (fr.fn[0].relpath, e.lineno)
        return self.call(st, fv, args, kwargs, e)

    def make_super(self, e, st):
        fr = st.heap[self.frame]
        if e.args:
            c = self.ev(e.args[0], st)
            o = self.ev(e.args[1], st)
            return SuperV(c, o)
        # zero-arg: find defining class from the frame chain
        loc = self.frame
        while loc is not None:
            f = st.heap[loc]
            fn = f.fn[1]
            if fn is not None and fn.cls is not None:
                a = fn.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperV(fn.cls, f.env[first])
            loc = f.parent
        return self.opq("super")

    # --------------------------------------------------------------------- call
    def call(self, st, fv, args, kwargs, node=None):
        if any(isinstance(a, StarArg) for a in args) and not isinstance(fv, Ext):
            return self.opq("star args")
        if isinstance(fv, PhiV):
            h1, h2 = st.copy(), st.copy()
            a = self.call(h1, fv.a, args, kwargs, node)
            b = self.call(h2, fv.b, args, kwargs, node)
            j = self.join(fv.c, h1, h2)
            st.heap = j.heap
            return self.phi(st, fv.c, a, b)
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(st, fv.fn, list(fv.args) + args, kw, node)
        if isinstance(fv, Wrapped):
            return self.call(st, fv.fn, args, kwargs, node)
        if isinstance(fv, Bound):
            return self.call(st, fv.fn, [fv.self_] + args, kwargs, node)
        if isinstance(fv, Fn):
            return self.call_fn(st, fv, args, kwargs, node)
        if isinstance(fv, Cls):
            return self.instantiate(st, fv, args, kwargs, node)
        if isinstance(fv, Ext):
            self.calls[fv.path] = self.calls.get(fv.path, 0) + 1
            return self.lib.call_ext(st, fv.path, args, kwargs, node)
        if isinstance(fv, ExtBound):
            return self.lib.call_method(st, fv.recv, fv.name, args, kwargs, node)
        if isinstance(fv, Ref):
            c = self.content(st, fv)
            if isinstance(c, InstC) and isinstance(c.cls, Cls):
                oc, m = c.cls.lookup("__call__")
                if m is not None:
                    return self.call(st, m, [fv] + args, kwargs, node)
        return self.lib.call_opaque(st, fv, args, kwargs)

    def qual(self, fn):
        return "%s.%s" % (fn.cls.name, fn.name) if fn.cls is not None else fn.name

    def call_fn(self, st, fn, args, kwargs, node=None):
        q = self.qual(fn)
        h = self.fnhooks.get(q) or self.fnhooks.get(fn.name)
        if h is not None:
            r = h(self, st, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.fstack) > self.MAXDEPTH or self.fstack.count(q) > 6:
            return self.opq("recursion " + q)
        self.funcs_seen.add((fn.module.relpath, q))
        env = self.bind(st, fn, args, kwargs)
        loc = next(self._loc)
        st.heap[loc] = FrameC(env, fn.closure, (fn.module, fn))
        self.heapmeta[loc] = Meta("frame", (), q, 0)
        saved, saved_site = self.frame, self.site
        self.frame = loc
        self.fstack.append(q)
        pc = st.pc
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.ev(fn.node.body, st)
            else:
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node)):
                    return self.opq("generator " + q)
                outs = self.block(fn.node.body, st)
                r = self.finish(st, outs)
        finally:
            self.frame = saved
            self.site = saved_site
            self.fstack.pop()
            st.pc = pc
            if loc not in self.escaped:
                st.heap.pop(loc, None)
        return r

    def finish(self, st, outs):
        """fold function outcomes into (state in place, value)"""
        rets = [o for o in outs if o.kind == "return"]
        ns = [o for o in outs if o.kind == "normal"]
        rs = [o for o in outs if o.kind == "raise"]
        if not rets and not ns:
            if rs:
                # propagate: state of the raise
                st.heap = rs[0].st.heap
                raise rs[0].val
            raise Abort("function never returns")
        for o in rs:
            self.event(st, "reject", o.g, o.val.name, o.val.msg)
        if rs and rs[0] is outs[-1] and False:
            pass
        seq = rets + [Out("return", o.st, K(None), ONE) for o in ns]
        cur = seq[-1]
        cst, cv = cur.st, cur.val
        for o in reversed(seq[:-1]):
            j = self.join(o.g, o.st, cst)
            cv = self.phi(j, o.g, o.val, cv)
            cst = j
        st.heap = cst.heap
        return cv

    def bind(self, st, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kwargs = dict(kwargs)
        args = list(args)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
        extra = args[len(names):]
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            raise Raise("TypeError", "too many args to %s" % fn.name)
        starstar = kwargs.pop("**", None)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                v = kwargs.pop(k)
                if isinstance(v, PhiV) and isinstance(v.b, K) and v.b.v is UNDEF:
                    v = v.a
                if k in env:
                    raise Raise("TypeError", "multiple values for %s" % k)
                env[k] = v
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = fn.defaults[j]
                elif starstar is not None:
                    env[n] = self.opq("**kw")
                else:
                    raise Raise("TypeError", "missing arg %s of %s" % (n, fn.name))
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in fn.kwdefaults:
                    env[x.arg] = fn.kwdefaults[x.arg]
                else:
                    raise Raise("TypeError", "missing kwarg %s" % x.arg)
        if a.kwarg is not None:
            if starstar is not None and not kwargs:
                c = self.content(st, starstar)
                if isinstance(c, DictC):
                    env[a.kwarg.arg] = self.alloc(st, DictC(list(c.ents), c.fun))
                else:
                    env[a.kwarg.arg] = starstar
            else:
                ents = []
                for k, v in kwargs.items():
                    if isinstance(v, PhiV) and isinstance(v.b, K) and v.b.v is UNDEF:
                        ents.append(Ent((), v.c, K(k), v.a))
                    else:
                        ents.append(Ent((), ONE, K(k), v))
                env[a.kwarg.arg] = self.alloc(st, DictC(ents))
        elif kwargs:
            raise Raise("TypeError", "unexpected kwargs %s to %s" % (list(kwargs), fn.name))
        return env

    def instantiate(self, st, cls, args, kwargs, node=None):
        if any(isinstance(b, Ext) and b.path.split(".")[-1] in ("Exception", "AssertionError") for b in cls.mro()):
            return Opq("exc")
        ref = self.alloc(st, InstC(cls, {}))
        oc, init = cls.lookup("__init__")
        if init is not None:
            self.call(st, init, [ref] + args, kwargs, node)
        return ref

    # ---------------------------------------------------------------- attributes
    def getattr(self, st, o, name):
        if isinstance(o, PhiV):
            h = st
            a = self.getattr(st, o.a, name)
            b = self.getattr(st, o.b, name)
            return self.phi(st, o.c, a, b)
        if isinstance(o, Ref):
            c = self.content(st, o)
            if isinstance(c, InstC):
                if name == "__dict__":
                    return ExtBound("__dict__", o)
                if name == "__class__" and isinstance(c.cls, Cls):
                    return c.cls
                if isinstance(c.cls, Cls):
                    for k in c.cls.mro():
                        if isinstance(k, Cls) and (k.name, name) in self.stubs:
                            return self.stubs[(k.name, name)](self, st, o)
                        if isinstance(k, Cls) and name in k.ns and isinstance(k.ns[name], Wrapped) and k.ns[name].kind == "property":
                            return self.call(st, k.ns[name].fn, [o], {})
                        if isinstance(k, Cls) and name in k.ns:
                            break
                if name in c.attrs:
                    v = self.undef_strip(c.attrs[name])
                    return v
                if isinstance(c.cls, Cls):
                    oc, m = c.cls.lookup(name)
                    if m is not None:
                        return self.bind_member(st, m, o, c.cls)
                    if any(isinstance(b, Ext) and b.path != "builtins.object" for b in c.cls.mro()):
                        return ExtBound(name, o)
                if "__opaque__" in c.attrs:
                    return self.opq("attr " + name)
                if isinstance(c.cls, Ext) or c.cls is None:
                    r = self.lib.inst_attr(st, o, c, name)
                    if r is not None:
                        return r
                raise Raise("AttributeError", name)
            return self.lib.attr(st, o, c, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return K(o.name)
            if name == "__mro__":
                return Tup([c if isinstance(c, Cls) else c for c in o.mro()])
            if name == "__class__":
                return Ext("builtins.type")
            oc, m = o.lookup(name)
            if m is not None:
                if isinstance(m, Wrapped):
                    if m.kind == "class":
                        return Bound(m.fn, o)
                    if m.kind == "static":
                        return m.fn
                    return m
                return m
            if name in ("__subclasses__",):
                return ExtBound(name, o)
            raise Raise("AttributeError", name)
        if isinstance(o, SuperV):
            return self.super_attr(st, o, name)
        if isinstance(o, ModV):
            v = self.project.module_get(self, st, o.mod, name)
            if v is None:
                sub = self.project.find_module(o.mod.name + "." + name)
                if sub is not None:
                    return ModV(sub)
                raise Raise("AttributeError", name)
            return v
        if isinstance(o, Ext):
            if o.path in ("numpy.pi", "math.pi"):
                return self.opq("pi attr")
            return self.lib.ext_attr(o.path, name)
        if isinstance(o, Fn) and name in ("__name__",):
            return K(o.name)
        if isinstance(o, (Fn, Bound, Partial)) and name in ("__doc__", "__dict__"):
            return Opq(name)
        if isinstance(o, NTup) and name in o.names:
            return o.items[o.names[name]]
        return self.lib.attr(st, o, None, name)

    def bind_member(self, st, m, o, cls):
        if isinstance(m, Wrapped):
            if m.kind == "class":
                return Bound(m.fn, cls)
            if m.kind == "static":
                return m.fn
            if m.kind == "property":
                return self.call(st, m.fn, [o], {})
        if isinstance(m, Fn):
            return Bound(m, o)
        return m

    def super_attr(self, st, o, name):
        s = o.self_
        if isinstance(s, Cls):
            owner = s
        else:
            c = self.content(st, s)
            owner = c.cls if isinstance(c, InstC) else None
        if not isinstance(owner, Cls):
            return self.opq("super attr")
        found = False
        for k in owner.mro():
            if found and isinstance(k, Cls):
                if (k.name, name) in self.stubs and not isinstance(s, Cls):
                    return self.stubs[(k.name, name)](self, st, s)
                if name in k.ns:
                    m = k.ns[name]
                    if isinstance(s, Cls):
                        if isinstance(m, Wrapped) and m.kind == "class":
                            return Bound(m.fn, s)
                        if isinstance(m, Wrapped) and m.kind == "static":
                            return m.fn
                        return m
                    return self.bind_member(st, m, s, owner)
            if k is o.cls:
                found = True
        if name in ("__init__", "__init_subclass__"):
            return Ext("builtins.object.__init__")
        return ExtBound("super." + name, s)

    def setattr(self, st, o, name, v):
        if isinstance(o, Ref):
            c = st.heap.get(o.loc)
            if isinstance(c, InstC):
                self.mark_write(st, o, "." + name)
                a = dict(c.attrs)
                a[name] = v
                st.heap[o.loc] = InstC(c.cls, a)
                return
        if isinstance(o, PhiV):
            self.note("setattr on phi")
            self.setattr(st, o.a, name, Opq("phi attr"))
            self.setattr(st, o.b, name, Opq("phi attr"))
            return
        self.event(st, "setattr_opaque", repr(o)[:60], name)

    def mark_write(self, st, ref, what):
        m = self.heapmeta.get(ref.loc)
        if m is not None and m.owner not in ("fresh", "frame"):
            self.event(st, "mutate", m.owner, what)
        c = st.heap.get(ref.loc)
        b = getattr(c, "base", None)
        if b is not None:
            mb = self.heapmeta.get(b)
            if mb is not None and mb.owner not in ("fresh", "frame"):
                self.event(st, "mutate", mb.owner, what + " (through a view)")
            bc = st.heap.get(b)
            if isinstance(bc, ArrC):
                # writing back through the view is not modelled: the viewed array becomes unknown
                self.note("write through a view")
                self.mark_write(st, Ref(b), what)
                bc = st.heap[b]
                st.heap[b] = ArrC(bc.dims, T.opaque("viewstore", *[d.flat() for d in bc.dims if d.vars]), ZERO, bc.kind, bc.base)


class StarArg(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class _Undef:
    def __repr__(self):
        return "UNDEF"

    def __bool__(self):
        return False


UNDEF = _Undef()

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())


def _drop_bools(p, ats):
    """assume the boolean atoms in ats are 1 (top level and inside powers)"""
    if not any(a in ats or a.kind in ("pow", "max", "abs", "fn") for a in p.atoms()):
        return p
    memo = {}

    def f(a):
        if a in ats:
            return ONE
        if a.kind in ("pow", "abs", "max", "gt0", "ge0", "eq0") or (a.kind == "fn"):
            return None
        return T.from_atom(a)
    return T.map_atoms(p, f, memo)


def _replace_atom(p, mu, by):
    at = mu.mono()[1][0][0]
    return T.map_atoms(p, lambda a: by if a is at else (None if T._args_of(a.data) and a.kind in ("pow",) else T.from_atom(a)))


def _coef(p, mu):
    """coefficient polynomial of the atom mu in p"""
    at = mu.mono()[1][0][0]
    out = {}
    for m, c in p.terms.items():
        if any(x is at for x, e in m):
            k = tuple((x, e) for x, e in m if x is not at)
            out[k] = out.get(k, 0) + c
    return T.mk_poly(out)


def _store_cond(v1, mu):
    return ONE - _coef(v1, mu)
