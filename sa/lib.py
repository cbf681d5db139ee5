"""Transfer functions for Python built-ins, numpy, scipy and pandas."""
import ast
import math
from fractions import Fraction

from . import term as T
from .term import ONE, ZERO, Poly, Var
from .values import *


class Mismatch(Exception):
    pass


QUIET = ("matplotlib", "sys.stdout", "sys.stderr", "warnings", "time.sleep", "builtins.print", "pprint", "abc",
         "unittest", "multiprocessing", "builtins.exit")


def Raise(name, msg=""):
    from . import interp
    return interp.Raise(name, msg)


class Lib:
    def __init__(self, interp):
        self.I = interp

    # ============================================================ sequences
    def segs(self, st, v):
        """segments of an iterable or None"""
        I = self.I
        if isinstance(v, Tup):
            return [Seg((), ONE, x) for x in v.items]
        if isinstance(v, SeqV):
            return v.segs
        if isinstance(v, K) and isinstance(v.v, str):
            return [Seg((), ONE, K(c)) for c in v.v]
        if isinstance(v, K) and isinstance(v.v, (list, tuple)):
            return [Seg((), ONE, K(c)) for c in v.v]
        if isinstance(v, Ref):
            c = I.content(st, v)
            if isinstance(c, ListC):
                if c.kind == "set":
                    return self.set_segs(st, c)
                return c.segs
            if isinstance(c, DictC):
                return self.dict_keys(st, c)
            if isinstance(c, ArrC) and c.dims:
                d = c.dims[0]
                if not d.vars:
                    return [Seg((), ONE, self.row(st, c))]
                return [Seg(d.vars, d.guard, self.row(st, c, v))]
            if isinstance(c, InstC) and isinstance(c.cls, Ext) and c.cls.path == "pandas.DataFrame":
                return None
        if isinstance(v, ExtBound) and v.name == "__dict__":
            c = I.content(st, v.recv)
            return [Seg((), ONE, K(k)) for k in c.attrs if k != "__opaque__"]
        if isinstance(v, PhiV):
            a, b = self.segs(st, v.a), self.segs(st, v.b)
            if a is not None and b is not None:
                return I.join_segs(st, v.c, a, b)
        return None

    def objects(self, st, segs):
        """elements that are compared by identity"""
        return all(isinstance(s.val, Ref) and not s.val.sub and isinstance(self.I.content(st, s.val), InstC) for s in segs)

    def set_segs(self, st, c):
        """a set in iteration order: distinct elements in an unspecified order"""
        I = self.I
        if self.plain(c.segs):
            if all(isinstance(s.val, K) for s in c.segs):
                vals = list(dict.fromkeys(s.val.v for s in c.segs))
                try:
                    vals = sorted(vals)
                except TypeError:
                    pass
                if any(isinstance(x, str) for x in vals):
                    I.event(st, "set_iter", "iteration over a set of strings")
                    if getattr(I, "hash_order", 0):
                        vals = vals[::-1]
                return [Seg((), ONE, K(x)) for x in vals]
            if len(c.segs) <= 1:
                return c.segs
            if self.objects(st, c.segs):
                out = {}
                for s in c.segs:
                    out.setdefault(s.val.loc, s)
                return list(out.values())
            if all(isinstance(s.val, (K, N)) for s in c.segs):
                a = self.arr_from_segs(st, c.segs)
                if a is not None and len(a.dims) == 1 and a.miss is ZERO:
                    c = ListC([Seg(a.dims[0].vars, a.dims[0].guard, N(a.val, ZERO, a.kind))], "set")
        if len(c.segs) == 1 and isinstance(c.segs[0], Seg):
            s = c.segs[0]
            t = I.term(st, s.val)
            if not t.opaque and not isinstance(s.val, Ref):
                if len(s.vars) == 1 and t is T.idx(s.vars[0]):
                    return c.segs
                q = Var("q", T.red("ndistinct", list(s.vars), t, s.guard))
                I.event(st, "set_iter", "iteration over a set")
                return [Seg((q,), ONE, N(T.red("setelem", list(s.vars), t, s.guard, T.idx(q)), ZERO, I.kind(s.val)))]
        I.note("iteration over a set")
        return [Seg((Var("u", T.opaque("n")),), ONE, Opq("set element"))]

    def row(self, st, c, ref=None):
        """element of an array along its first dim (free in that dim's vars)"""
        if len(c.dims) == 1:
            return self.I.simp(N(c.val, c.miss, c.kind))
        a = ArrC(c.dims[1:], c.val, c.miss, c.kind)
        a.base = ref.loc if ref is not None else None
        birth = tuple(self.I.loopvars) + c.dims[0].vars
        return self.I.alloc(st, a, birth=birth)

    def dict_keys(self, st, c):
        out = []
        for e in c.ents:
            if isinstance(e, MuEnt):
                return None
            out.append(Seg(e.vars, e.guard, e.key))
        if c.fun is not None:
            out = list(c.fun[3].segs) + out
        return out

    def dict_items(self, st, c, what):
        out = []
        for e in c.ents:
            if isinstance(e, MuEnt):
                return None
            val = e.key if what == "keys" else (e.val if what == "values" else Tup([e.key, e.val]))
            out.append(Seg(e.vars, e.guard, val))
        if c.fun is not None:
            kv, has, val, keys = c.fun
            pre = []
            for s in keys.segs:
                kt = self.I.term(st, s.val)
                vv = self.I.sub_val(val, {kv: kt})
                pre.append(Seg(s.vars, s.guard, s.val if what == "keys" else (vv if what == "values" else Tup([s.val, vv]))))
            out = pre + out
        return out

    def seq_at(self, st, segs, t):
        I = self.I
        if all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in segs):
            if t.is_const:
                i = int(t.cval)
                if -len(segs) <= i < len(segs):
                    return segs[i].val
                raise Raise("IndexError", "list index")
            if not segs:
                return I.opq("index of empty")
            out = segs[-1].val
            for i in range(len(segs) - 2, -1, -1):
                out = I.phi(st, T.eq(t, i), segs[i].val, out)
            return out
        if t.is_const and t.cval < 0:
            # the tail of plain items
            i = int(t.cval)
            for s in segs[::-1]:
                if isinstance(s, Seg) and not s.vars and s.guard is ONE:
                    i += 1
                    if i == 0:
                        return s.val
                else:
                    break
        segs = self.merge_segs(st, segs)
        if len(segs) == 1 and isinstance(segs[0], Seg):
            s = segs[0]
            if s.guard is not ONE and len(s.vars) == 1 and self.known_full(st.pc, s):
                s = Seg(s.vars, ONE, s.val)
            if s.guard is ONE:
                if t.is_const and t.cval < 0:
                    n = ONE
                    for v in s.vars:
                        n = T.mul(n, v.size)
                    t = n + t
                mp = I.split_flat(t, s.vars)
                return I.simp(I.sub_val(s.val, mp))
            if len(s.vars) == 1 and t.is_const and t.cval in (0, -1):
                v = s.vars[0]
                w = Var("w", v.size)
                gw = T.subst(s.guard, {v: T.idx(w)})
                o = T.lt(w, v) if t.cval == 0 else T.lt(v, w)
                first = T.mul(s.guard, ONE - T.any_(w, T.mul(gw, o)))
                pos = T.ssum(v, T.mul(first, T.idx(v)))
                return I.simp(I.sub_val(s.val, {v: pos}))
            if len(s.vars) == 1 and not t.opaque:
                v = s.vars[0]
                rank = self.rank(s)
                pos = T.ssum(v, T.mul(T.mul(s.guard, T.eq(rank, t)), T.idx(v)))
                return I.simp(I.sub_val(s.val, {v: pos}))
            if not s.vars:
                return s.val
        # prefix of plain items followed by a symbolic one, constant index
        if t.is_const:
            i = int(t.cval)
            for s in segs:
                if isinstance(s, Seg) and not s.vars and s.guard is ONE:
                    if i == 0:
                        return s.val
                    i -= 1
                else:
                    break
        if segs and all(isinstance(s, Seg) and not s.vars for s in segs) and not t.opaque:
            # items present under a condition: the item whose rank among those present is t
            ranks, n = [], ZERO
            for s in segs:
                ranks.append(n)
                n = n + s.guard
            if t.is_const and t.cval < 0:
                t = n + t
            out = segs[-1].val
            for s, q in list(zip(segs, ranks))[-2::-1]:
                out = I.phi(st, T.mul(s.guard, T.eq(q, t)), s.val, out)
            return I.simp(out) if isinstance(out, N) else out
        return I.opq("seq index")

    def facts(self, pc):
        """equalities q == 0 that hold on every path with condition pc"""
        out = None
        for m in pc.terms:
            here = {}
            for a, e in m:
                if a.kind == "let":
                    mm = T.let_open(a).mono()
                    if mm:
                        for b, _ in mm[1]:
                            if b.kind == "eq0":
                                here[b.digest] = b.data[0]
                elif a.kind == "eq0":
                    here[a.digest] = a.data[0]
            out = here if out is None else {k: v for k, v in out.items() if k in here}
        return list((out or {}).values())

    def known_full(self, pc, s):
        """the path condition says every element passes the segment's filter"""
        if pc is ONE:
            return False
        d = T.ssum(s.vars, s.guard) - Dim(s.vars).size()
        return any(d is q or T.neg(d) is q for q in self.facts(pc))

    def merge_segs(self, st, segs):
        """two adjacent filtered segments over the same range of which at most one is non-empty"""
        segs = list(segs)
        i = 0
        while i + 1 < len(segs):
            a, b = segs[i], segs[i + 1]
            i += 1
            if not (isinstance(a, Seg) and isinstance(b, Seg) and len(a.vars) == 1 and len(b.vars) == 1):
                continue
            if a.vars[0].size is not b.vars[0].size or a.guard is ONE or b.guard is ONE:
                continue
            v = a.vars[0]
            w = Var("x", v.size)
            ren = {b.vars[0]: T.idx(v)}
            gb = T.subst(b.guard, ren)
            ga = a.guard
            excl = T.mul(T.subst(ga, {v: T.idx(w)}), gb) is ZERO
            if not excl:
                n = T.ssum(v, ga)
                excl = any(n is q or T.neg(n) is q for q in self.facts(gb)) or \
                    any(T.ssum(v, gb) is q or T.neg(T.ssum(v, gb)) is q for q in self.facts(ga))
            if not excl:
                continue
            vb = self.I.sub_val(b.val, ren)
            if not self.I.same(a.val, vb):
                if not (isinstance(a.val, (K, N)) and isinstance(vb, (K, N))):
                    continue
                val = self.I.phi(st, ga, a.val, vb)
            else:
                val = a.val
            segs[i - 1:i + 1] = [Seg((v,), T.or_(ga, gb), val)]
            i -= 1
        return segs

    def rank(self, s):
        """position of the element of a segment"""
        if s.guard is ONE:
            return Dim(s.vars).flat()
        if len(s.vars) != 1:
            # row-major rank over several vars
            ws = [Var("w", v.size) for v in s.vars]
            mp = {v: T.idx(w) for v, w in zip(s.vars, ws)}
            f1, f0 = Dim(ws).flat(), Dim(s.vars).flat()
            return T.ssum(ws, T.mul(T.subst(s.guard, mp), T.lt(f1, f0)))
        v = s.vars[0]
        w = Var("w", v.size)
        return T.ssum(w, T.mul(T.subst(s.guard, {v: T.idx(w)}), T.lt(w, v)))

    def plain(self, segs):
        return segs is not None and all(isinstance(s, Seg) and not s.vars and s.guard is ONE for s in segs)

    def expand(self, segs):
        """turn constant-size segments into plain items"""
        if segs is None:
            return None
        out = []
        for s in segs:
            if isinstance(s, Seg) and len(s.vars) == 1 and s.vars[0].size.is_const and s.guard is ONE and s.vars[0].size.cval <= 64:
                for i in range(int(s.vars[0].size.cval)):
                    out.append(Seg((), ONE, self.I.simp(self.I.sub_val(s.val, {s.vars[0]: T.const(i)}))))
            else:
                out.append(s)
        return out

    # ============================================================ arrays
    def arrc(self, st, v):
        """ArrC view of any numeric value / nested sequence, or None"""
        I = self.I
        if isinstance(v, Ref):
            c = I.content(st, v)
            if isinstance(c, ArrC):
                return c
            if isinstance(c, InstC) and isinstance(c.cls, Ext) and c.cls.path in ("pandas.DataFrame", "pandas.Series"):
                return self.arrc(st, c.attrs["data"])
            if isinstance(c, ListC):
                return self.arr_from_segs(st, c.segs)
            return None
        if isinstance(v, (K, N)):
            n = I.num(st, v)
            if n is None:
                if isinstance(v, K) and isinstance(v.v, str):
                    return ArrC([], T.strc(v.v), ZERO, "str")
                return None
            return ArrC([], n[0], n[1], I.kind(v))
        if isinstance(v, (Tup, SeqV)):
            return self.arr_from_segs(st, self.segs(st, v))
        if isinstance(v, PhiV):
            a, b = self.arrc(st, v.a), self.arrc(st, v.b)
            if a is None or b is None:
                return None
            j = I.join_arr(v.c, a, b)
            return j if j is not None else self.arr_from_segs(st, self.segs(st, v))
        if isinstance(v, Opq):
            return ArrC([], v.poly(), ZERO, "num") if False else None
        return None

    def arr_from_segs(self, st, segs):
        I = self.I
        if segs is None:
            return None
        if self.plain(segs):
            if not segs:
                return ArrC([Dim([Var("z", 0)])], ZERO)
            items = [self.arrc(st, s.val) for s in segs]
            if any(x is None for x in items):
                return None
            v = Var("k", len(items)) if len(items) != 1 else None
            if v is None:
                x = items[0]
                return ArrC([Dim(())] + x.dims, x.val, x.miss, x.kind)
            base = items[0]
            val, miss = ZERO, ZERO
            kind = base.kind
            for i, x in enumerate(items):
                u = I.unify_dims(base, x)
                if u is None:
                    return None
                base2, x2 = u
                if not I.same_dims(base2, base):
                    return None
                c = T.eq(v, i)
                val = val + T.mul(c, x2.val)
                miss = miss + T.mul(c, x2.miss)
                if x.kind != kind:
                    kind = "num"
            return ArrC([Dim([v])] + base.dims, val, miss, kind)
        parts = []
        segs = self.merge_segs(st, segs)
        if len(segs) > 1 and all(isinstance(s, Seg) and not s.vars for s in segs):
            # items present under a condition
            items = [self.arrc(st, s.val) for s in segs]
            if all(x is not None and not x.dims for x in items):
                v = Var("g", T.const(len(segs)))
                g, val, miss = ZERO, ZERO, ZERO
                for i, (s, x) in enumerate(zip(segs, items)):
                    c = T.eq(v, i)
                    g, val, miss = g + T.mul(c, s.guard), val + T.mul(c, x.val), miss + T.mul(c, x.miss)
                kinds = set(x.kind for x in items)
                return ArrC([Dim([v], g)], val, miss, kinds.pop() if len(kinds) == 1 else "num")
        for s in segs:
            if isinstance(s, MuSeg):
                return None
            e = self.arrc(st, s.val)
            if e is None:
                return None
            if not s.vars and s.guard is not ONE:
                return None
            parts.append(ArrC([Dim(s.vars, s.guard)] + e.dims, e.val, e.miss, e.kind))
        if len(parts) == 1:
            return parts[0]
        if any(p.dims[0].guard is not ONE for p in parts):
            return None
        return self.concat(parts, 0)

    def concat(self, parts, axis):
        """piecewise concatenation"""
        I = self.I
        parts = [ArrC(list(p.dims), p.val, p.miss, p.kind) for p in parts]
        n = len(parts[0].dims)
        if any(len(p.dims) != n for p in parts):
            return None
        if axis < 0:
            axis += n
        if all(p.dims[axis].guard is ONE for p in parts) is False:
            return None
        # equal symbolic blocks: concat of k arrays each with the same size -> still piecewise
        total = ZERO
        offs = []
        for p in parts:
            offs.append(total)
            total = total + p.dims[axis].size()
        v = Var("cat", total)
        base = None
        val, miss = None, None
        for p, o in reversed(list(zip(parts, offs))):
            mp = I.split_flat(T.idx(v) - o, list(p.dims[axis].vars))
            dims = list(p.dims)
            pv, pm = T.subst(p.val, mp), T.subst(p.miss, mp)
            dims[axis] = Dim([v])
            q = ArrC(dims, pv, pm, p.kind)
            if base is None:
                base, val, miss = q, pv, pm
            else:
                u = I.unify_dims(base, q)
                if u is None:
                    return None
                b2, q2 = u
                if not I.same_dims(b2, base):
                    return None
                c = T.lt(v, o + p.dims[axis].size())
                val = T.phi(c, q2.val, val)
                miss = T.phi(c, q2.miss, miss)
        return ArrC(base.dims, val, miss, base.kind)

    def broadcast(self, arrs):
        """align several ArrC; returns (dims, [(val, miss)])"""
        I = self.I
        n = max(len(a.dims) for a in arrs)
        dims = [Dim(())] * n
        out = []
        for a in arrs:
            ds = [Dim(())] * (n - len(a.dims)) + list(a.dims)
            used = {v for d in dims for v in d.vars}
            mp = {}
            newdims = list(dims)
            prevmaps = {}
            for i, d in enumerate(ds):
                d = self.unit(d)
                cur = dims[i]
                if not d.vars and d.guard is ONE:
                    continue
                if not cur.vars and cur.guard is ONE:
                    # fresh names where the variable is already taken by another position
                    if any(v in used for v in d.vars) or any(v in nd.vars for j, nd in enumerate(newdims) if j != i for v in d.vars):
                        ren = {}
                        nv = []
                        for v in d.vars:
                            w = Var(v.name.split("#")[0], v.size)
                            ren[v] = T.idx(w)
                            nv.append(w)
                        mp.update(ren)
                        newdims[i] = Dim(nv, T.subst(d.guard, ren))
                    else:
                        newdims[i] = d
                    continue
                r = I.match_dim(cur, d)
                if r is None:
                    raise Mismatch("%s vs %s" % (cur, d))
                nd, ma, mb = r
                newdims[i] = nd
                prevmaps.update(ma)
                mp.update(mb)
            if prevmaps:
                out = [(T.subst(x, prevmaps), T.subst(y, prevmaps)) for x, y in out]
            dims = newdims
            out.append((T.subst(a.val, mp), T.subst(a.miss, mp)))
        return dims, out

    def unit(self, d):
        vs = [v for v in d.vars if not (v.size.is_const and v.size.cval == 1)]
        if len(vs) != len(d.vars) and d.guard is ONE:
            return Dim(vs)
        return d

    def ew(self, st, f, vals, kind="num", missf=None):
        """element-wise function over values; f takes Polys"""
        I = self.I
        if any(isinstance(v, Opq) for v in vals):
            if all(isinstance(v, (Opq, K, N)) for v in vals):
                ps = [I.term(st, v) for v in vals]
                return N(f(*ps), ZERO, kind)
            return self.I.opq("op on opaque")
        arrs = [self.arrc(st, v) for v in vals]
        if any(a is None for a in arrs):
            return I.opq("non-numeric operand")
        try:
            dims, vm = self.broadcast(arrs)
        except Mismatch as m:
            return self.shape_error(st, arrs, str(m))
        if missf is not None:
            miss = missf(*[m for v, m in vm])
        else:
            miss = T.or_(*[m for v, m in vm])
        val = f(*[v for v, m in vm])
        if not dims and not any(isinstance(v, Ref) and not self.is_scalar0(st, v) for v in vals):
            return I.simp(N(I.assume_present(val, miss), miss, kind))
        if not dims:
            return I.simp(N(I.assume_present(val, miss), miss, kind))
        return I.arr(st, dims, val, miss, kind)

    def is_scalar0(self, st, v):
        return False

    def shape_error(self, st, arrs, msg):
        if not any(a.val.opaque or any(d.size().opaque or d.guard is not ONE for d in a.dims) for a in arrs):
            self.I.errors.append(("shape", self.I.where(), " * ".join("(%s)" % ",".join(str(d.size()) for d in a.dims) for a in arrs)))
            self.I.event(st, "shape_mismatch", msg)
        return self.I.opq("shape mismatch " + msg)

    # ------------------------------------------------------------- operators
    def binop(self, st, op, a, b):
        I = self.I
        if isinstance(a, PhiV) or isinstance(b, PhiV):
            if isinstance(a, PhiV):
                na, nb = I.num(st, a), None
                if na is None:
                    return I.phi(st, a.c, self.binop(st, op, a.a, b), self.binop(st, op, a.b, b))
            if isinstance(b, PhiV) and I.num(st, b) is None:
                return I.phi(st, b.c, self.binop(st, op, a, b.a), self.binop(st, op, a, b.b))
            if isinstance(a, PhiV):
                n = I.num(st, a)
                a = N(n[0], n[1])
            if isinstance(b, PhiV):
                n = I.num(st, b)
                b = N(n[0], n[1])
        ca = I.content(st, a) if isinstance(a, Ref) else None
        cb = I.content(st, b) if isinstance(b, Ref) else None
        # strings
        sa, sb = I.kind(a) == "str", I.kind(b) == "str"
        if op == "Mod" and sa:
            return self.strfmt(st, a, [b])
        if op == "Add" and (sa or sb):
            if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
                return K(a.v + b.v)
            return self.strcat(st, [a, b])
        if op == "Mult" and sa and isinstance(b, K):
            return K(a.v * b.v) if isinstance(a, K) else I.opq("str*")
        # lists
        if op == "Add" and (isinstance(ca, ListC) or isinstance(cb, ListC)) and not isinstance(ca, ArrC) and not isinstance(cb, ArrC):
            x, y = self.segs(st, a), self.segs(st, b)
            if x is None or y is None:
                return I.opq("list +")
            return I.alloc(st, ListC(list(x) + list(y)))
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if op == "Mult" and (isinstance(ca, ListC) or isinstance(cb, ListC) or isinstance(a, Tup)):
            l, n = (a, b) if (isinstance(ca, ListC) or isinstance(a, Tup)) else (b, a)
            segs = self.segs(st, l)
            if isinstance(n, K) and isinstance(n.v, int) and n.v * len(segs) <= 400:
                return I.alloc(st, ListC(list(segs) * n.v)) if not isinstance(l, Tup) else Tup(l.items * n.v)
            t = I.term(st, n)
            if self.plain(segs) and len(segs) == 1:
                v = Var("rep", t)
                return I.alloc(st, ListC([Seg((v,), ONE, segs[0].val)]))
            if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].guard is ONE:
                v = Var("rep", t)
                return I.alloc(st, ListC([Seg((v,) + segs[0].vars, ONE, segs[0].val)]))
            return I.opq("list *")
        # sets
        if isinstance(ca, ListC) and ca.kind == "set" and isinstance(cb, ListC) and op in ("BitOr", "BitAnd", "Sub"):
            if op == "BitOr":
                return I.alloc(st, ListC(ca.segs + cb.segs, "set"))
            return I.opq("set op")
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, (int, bool, float, Fraction)) and isinstance(b.v, (int, bool, float, Fraction)):
            r = self.kfold(op, a.v, b.v)
            if r is not None:
                return r
        return self.arith(st, op, a, b)

    def kfold(self, op, x, y):
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)) or isinstance(y, float) and (y != y or y in (math.inf, -math.inf)):
            return None
        try:
            fx, fy = T.frac(x), T.frac(y)
            bothint = isinstance(x, int) and isinstance(y, int)
            if op == "Add":
                r = fx + fy
            elif op == "Sub":
                r = fx - fy
            elif op == "Mult":
                r = fx * fy
            elif op == "FloorDiv":
                r = Fraction(fx // fy)
            elif op == "Mod":
                r = fx - (fx // fy) * fy
            elif op == "Pow" and fy.denominator == 1 and abs(fy) < 50:
                r = fx ** int(fy)
            elif op == "Div":
                r = fx / fy
                bothint = False
            elif op in ("BitAnd", "BitOr", "BitXor") and isinstance(x, bool) and isinstance(y, bool):
                return K({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            else:
                return None
        except ZeroDivisionError:
            return None
        if r.denominator == 1 and bothint:
            return K(int(r))
        return N(T.const(r), ZERO, "num") if not bothint else K(int(r))

    def arith(self, st, op, a, b):
        I = self.I
        ka, kb = I.kind(a), I.kind(b)
        if isinstance(a, Ref):
            c = self.arrc(st, a)
            ka = c.kind if c else "any"
        if isinstance(b, Ref):
            c = self.arrc(st, b)
            kb = c.kind if c else "any"
        kind = "int" if ka in ("int", "bool") and kb in ("int", "bool") else "num"
        if op == "Add":
            return self.ew(st, lambda x, y: x + y, [a, b], kind)
        if op == "Sub":
            return self.ew(st, lambda x, y: x - y, [a, b], kind)
        if op == "Mult":
            return self.ew(st, T.mul, [a, b], kind)
        if op == "Div":
            return self.ew(st, lambda x, y: T.mul(x, T.power(y, -1)), [a, b])
        if op == "Pow":
            return self.ew(st, T.power, [a, b], kind if kb == "int" else "num")
        if op == "FloorDiv":
            return self.ew(st, T.floordiv, [a, b], kind)
        if op == "Mod":
            return self.ew(st, T.mod, [a, b], kind)
        if op == "BitAnd":
            if ka == kb == "bool":
                return self.ew(st, T.mul, [a, b], "bool")
            ca, cb = (I.content(st, x) if isinstance(x, Ref) else None for x in (a, b))
        if op == "BitOr" and ka == kb == "bool":
            return self.ew(st, T.or_, [a, b], "bool")
        if op == "BitXor" and ka == kb == "bool":
            return self.ew(st, lambda x, y: x + y - 2 * T.mul(x, y), [a, b], "bool")
        if op == "MatMult":
            return self.matmul(st, a, b)
        return I.opq("binop " + op)

    def unop(self, st, op, a):
        I = self.I
        if isinstance(a, PhiV) and I.num(st, a) is None:
            return I.phi(st, a.c, self.unop(st, op, a.a), self.unop(st, op, a.b))
        if isinstance(a, K) and op == "USub" and isinstance(a.v, (int, float)) and not isinstance(a.v, bool):
            return K(-a.v)
        k = I.kind(a)
        if isinstance(a, Ref):
            c = self.arrc(st, a)
            k = c.kind if c else "any"
        if op == "USub":
            return self.ew(st, T.neg, [a], k if k != "bool" else "int")
        if op == "UAdd":
            return a
        if op == "Invert":
            if k == "bool":
                return self.ew(st, lambda x: ONE - x, [a], "bool")
            return self.ew(st, lambda x: -x - 1, [a], "int")
        return I.opq("unop")

    def iop(self, st, op, old, rhs):
        """augmented assignment on a value: in place for arrays and lists"""
        I = self.I
        if isinstance(old, Ref):
            c = I.content(st, old)
            if isinstance(c, ArrC):
                r = self.binop(st, op, old, rhs)
                cr = self.arrc(st, r) if not isinstance(r, Opq) else None
                I.mark_write(st, old, "in-place %s" % op)
                if cr is None:
                    st.heap[old.loc] = ArrC(c.dims, T.opaque("iop", *[d.flat() for d in c.dims if d.vars]), ZERO, c.kind, c.base)
                else:
                    u = I.unify_dims(c, cr)
                    if u is None:
                        st.heap[old.loc] = ArrC(cr.dims, cr.val, cr.miss, cr.kind, c.base)
                    else:
                        st.heap[old.loc] = ArrC(u[1].dims, u[1].val, u[1].miss, cr.kind, c.base)
                return old
            if isinstance(c, ListC) and op == "Add":
                self.list_extend(st, old, rhs)
                return old
            if isinstance(c, ListC) and c.kind == "set" and op == "BitOr":
                self.list_extend(st, old, rhs)
                return old
        if isinstance(old, PhiV) and I.num(st, old) is None:
            I.note("iop on phi")
        return self.binop(st, op, old, rhs)

    # ------------------------------------------------------------- comparison
    def compare(self, st, op, a, b):
        I = self.I
        if isinstance(a, PhiV) and not (op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") and I.num(st, a) is not None):
            return I.phi(st, a.c, self.compare(st, op, a.a, b), self.compare(st, op, a.b, b))
        if isinstance(b, PhiV) and not (op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") and I.num(st, b) is not None):
            return I.phi(st, b.c, self.compare(st, op, a, b.a), self.compare(st, op, a, b.b))
        if op in ("Is", "IsNot"):
            r = self.is_(st, a, b)
            return I.simp(N(r if op == "Is" else ONE - r, ZERO, "bool"))
        if op in ("In", "NotIn"):
            r = self.contains(st, b, a)
            return I.simp(N(r if op == "In" else ONE - r, ZERO, "bool"))
        if isinstance(a, PhiV):
            n = I.num(st, a)
            a = N(n[0], n[1])
        if isinstance(b, PhiV):
            n = I.num(st, b)
            b = N(n[0], n[1])
        if op in ("Eq", "NotEq"):
            ca = I.content(st, a) if isinstance(a, Ref) else None
            cb = I.content(st, b) if isinstance(b, Ref) else None
            if isinstance(ca, ArrC) or isinstance(cb, ArrC):
                return self.ew(st, (lambda x, y: T.eq(x, y)) if op == "Eq" else (lambda x, y: ONE - T.eq(x, y)), [a, b], "bool",
                               missf=lambda *m: ZERO) if False else self.cmp_arr(st, op, a, b)
            r = self.equal(st, a, b)
            return I.simp(N(r if op == "Eq" else ONE - r, ZERO, "bool"))
        if isinstance(a, K) and isinstance(b, K):
            try:
                x, y = a.v, b.v
                r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
                return K(bool(r))
            except TypeError:
                raise Raise("TypeError", "compare")
        return self.cmp_arr(st, op, a, b)

    def cmp_arr(self, st, op, a, b):
        I = self.I
        f = {"Lt": lambda x, y: T.lt(x, y), "LtE": lambda x, y: T.le(x, y), "Gt": lambda x, y: T.lt(y, x),
             "GtE": lambda x, y: T.le(y, x), "Eq": lambda x, y: T.eq(x, y), "NotEq": lambda x, y: ONE - T.eq(x, y)}[op]
        if any(isinstance(v, Opq) for v in (a, b)):
            if all(isinstance(v, (Opq, K, N)) for v in (a, b)):
                return N(f(I.term(st, a), I.term(st, b)), ZERO, "bool")
            return I.opq("cmp")
        arrs = [self.arrc(st, v) for v in (a, b)]
        if any(x is None for x in arrs):
            return N(T.app("truth", T.opaque("cmp"), boolean=True), ZERO, "bool")
        try:
            dims, vm = self.broadcast(arrs)
        except Mismatch as m:
            return self.shape_error(st, arrs, str(m))
        (x, mx), (y, my) = vm
        miss = T.or_(mx, my)
        c = f(x, y)
        if miss is not ZERO:
            prs = ONE - miss
            c = T.mul(prs, c) if op != "NotEq" else ONE - T.mul(prs, ONE - c)
        if not dims:
            return I.simp(N(c, ZERO, "bool"))
        return I.arr(st, dims, c, ZERO, "bool")

    def is_(self, st, a, b):
        I = self.I
        if isinstance(a, K) and isinstance(b, K):
            if a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v):
                return ONE
            return ZERO
        if isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        if isinstance(b, K):
            if b.v is None:
                if isinstance(a, N):
                    return T.eq(a.val, T.sym("None")) if a.kind == "any" else ZERO
                if isinstance(a, Opq):
                    return T.app("truth", a.poly(), boolean=True)
                return ZERO
            if isinstance(b.v, bool):
                if isinstance(a, N) and a.kind == "bool":
                    return a.val if b.v else ONE - a.val
                if isinstance(a, N):
                    return T.app("is_bool", a.val, boolean=True) if a.kind == "any" else ZERO
                if isinstance(a, Opq):
                    return T.app("truth", a.poly(), boolean=True)
                return ZERO
        if isinstance(a, (Cls, Ext, Fn)) and isinstance(b, (Cls, Ext, Fn)):
            return ONE if I.same(a, b) else ZERO
        if isinstance(a, Ref) and isinstance(b, Ref):
            return ONE if I.same(a, b) else ZERO
        if isinstance(a, (Ref, Tup, Cls, Fn, Ext, SeqV)) != isinstance(b, (Ref, Tup, Cls, Fn, Ext, SeqV)) and not isinstance(a, Opq) and not isinstance(b, Opq):
            return ZERO
        return T.app("truth", T.opaque("is"), boolean=True)

    def equal(self, st, a, b):
        I = self.I
        if isinstance(a, K) and isinstance(b, K):
            return ONE if a.v == b.v else ZERO
        if isinstance(a, (Cls, Fn, Ext)) and isinstance(b, (Cls, Fn, Ext)):
            return ONE if I.same(a, b) else ZERO
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Wrapped, Fn, Cls, Bound)) and isinstance(y, K):
                return ZERO
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return ZERO
            return T.and_(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and (x.v is None) and isinstance(y, (N, Tup, Ref)) and I.kind(y) != "any":
                return ZERO
            if isinstance(x, K) and x.v is None and isinstance(y, (Tup, Ref)):
                return ZERO
        ka, kb = I.kind(a), I.kind(b)
        if {"str"} == {ka, kb} - {"num", "int", "bool"} and ka != kb and ka != "any" and kb != "any":
            return ZERO
        if isinstance(a, Ref) and isinstance(b, Ref):
            if I.same(a, b):
                return ONE
            sa, sb = self.expand(self.segs(st, a)), self.expand(self.segs(st, b))
            if self.plain(sa) and self.plain(sb):
                if len(sa) != len(sb):
                    return ZERO
                return T.and_(*[self.equal(st, x.val, y.val) for x, y in zip(sa, sb)])
        if isinstance(a, Ref) != isinstance(b, Ref):
            ref, o = (a, b) if isinstance(a, Ref) else (b, a)
            c = I.content(st, ref)
            if isinstance(c, (ListC, DictC)) and isinstance(o, (K, N)) and I.kind(o) != "any":
                return ZERO
        ta, tb = I.term(st, a), I.term(st, b)
        ma, mb = I.missof(a), I.missof(b)
        r = T.eq(ta, tb)
        m = T.or_(ma, mb)
        return T.mul(ONE - m, r) if m is not ZERO else r

    def contains(self, st, cont, x):
        I = self.I
        if isinstance(cont, K) and isinstance(cont.v, str):
            if isinstance(x, K):
                return ONE if x.v in cont.v else ZERO
            return T.app("substr", I.term(st, x), T.strc(cont.v), boolean=True)
        if isinstance(cont, SeqV) and cont.kind == "range":
            lo, hi, step = cont.rng if hasattr(cont, "rng") else (None, None, None)
        c = I.content(st, cont) if isinstance(cont, Ref) else None
        if isinstance(c, DictC):
            return self.dict_has(st, c, x)
        if isinstance(cont, ExtBound) and cont.name == "__dict__":
            return self.hasattr(st, cont.recv, x.v) if isinstance(x, K) else T.app("truth", T.opaque("in dict"), boolean=True)
        segs = c.segs if isinstance(c, ListC) else self.segs(st, cont)
        if segs is None:
            if isinstance(cont, N) and cont.kind == "str":
                return T.app("substr", I.term(st, x), cont.val, boolean=True)
            return T.app("truth", T.opaque("in"), boolean=True)
        r = ZERO
        for s in segs:
            if isinstance(s, MuSeg):
                return T.app("truth", T.opaque("in mu"), boolean=True)
            e = self.equal(st, s.val, x)
            if s.vars:
                # rename to avoid capture
                ren = {v: T.idx(Var("q", v.size)) for v in s.vars}
                nv = [list(ren[v].atoms())[0].data[0] if ren[v].terms else v for v in s.vars]
                val = I.sub_val(s.val, ren)
                g = T.subst(s.guard, ren)
                e = self.equal(st, val, x)
                e = T.any_(nv, e, g)
            elif s.guard is not ONE:
                e = T.mul(e, s.guard)
            r = T.or_(r, e)
            if r is ONE:
                return ONE
        return r

    # ============================================================ dict ops
    def dict_lookup(self, st, c, key, want="val"):
        """(presence Poly, Val) for a key"""
        I = self.I
        pres = ZERO
        val = None
        if c.fun is not None:
            kv, has, v, keys = c.fun
            kt = I.term(st, key)
            pres = T.subst(has, {kv: kt})
            val = I.sub_val(v, {kv: kt})
        for e in c.ents:
            if isinstance(e, MuEnt):
                pres = T.app("truth", T.opaque("mu dict"), boolean=True)
                val = Opq("mu dict")
                continue
            if not e.vars:
                q = self.equal(st, e.key, key)
                if q is ZERO:
                    continue
                q = T.mul(q, e.guard)
                if q is ONE:
                    pres, val = ONE, e.val
                elif q is not ZERO:
                    pres = T.or_(q, pres)
                    val = e.val if val is None else I.phi(st, q, e.val, val)
            else:
                ren = {}
                nv = []
                for v in e.vars:
                    w = Var(v.name.split("#")[0], T.subst(v.size, ren))
                    ren[v] = T.idx(w)
                    nv.append(w)
                ek = I.sub_val(e.key, ren)
                ev_ = I.sub_val(e.val, ren)
                g = T.subst(e.guard, ren)
                sol = self.solve_key(st, ek, key, nv)
                if sol is not None:
                    q = T.subst(g, sol)
                    rng = ONE
                    for v, t in sol.items():
                        rng = T.mul(rng, T.and_(T.ge0(t), T.lt(t, v.size)))
                    q = T.mul(q, rng)
                    v2 = I.sub_val(ev_, sol)
                else:
                    m = self.equal(st, ek, key)
                    q = T.any_(nv, m, g)
                    if len(nv) == 1:
                        pos = T.ssum(nv, T.mul(T.mul(m, g), T.idx(nv[0])))
                        v2 = I.sub_val(ev_, {nv[0]: pos})
                    else:
                        sub = {}
                        for v in nv:
                            sub[v] = T.ssum(nv, T.mul(T.mul(m, g), T.idx(v)))
                        v2 = I.sub_val(ev_, sub)
                if q is ZERO:
                    continue
                if q is ONE or val is None:
                    val = v2
                    pres = T.or_(pres, q)
                else:
                    val = I.phi(st, q, v2, val)
                    pres = T.or_(pres, q)
        return pres, val

    def solve_key(self, st, ek, key, nv):
        """substitution of nv making ek syntactically equal to key, if evident"""
        I = self.I
        eks = ek.items if isinstance(ek, Tup) else [ek]
        ks = key.items if isinstance(key, Tup) else [key]
        if len(eks) != len(ks):
            return None
        sol = {}
        for a, b in zip(eks, ks):
            ta, tb = I.term(st, a), I.term(st, b)
            for v in nv:
                if v in sol or v not in ta.free:
                    continue
                if ta is T.idx(v):
                    sol[v] = tb
                    continue
                ma, mb = ta.mono(), tb.mono()
                if ma and mb and len(ma[1]) == 1 and len(mb[1]) == 1:
                    x, y = ma[1][0][0], mb[1][0][0]
                    if x.kind == y.kind == "in" and x.data[0] == y.data[0] and len(x.data) == len(y.data):
                        for p, q in zip(x.data[1:], y.data[1:]):
                            if p is T.idx(v):
                                sol[v] = q
        if len(sol) != len(nv):
            return None
        for a, b in zip(eks, ks):
            if T.subst(I.term(st, a), sol) is not I.term(st, b):
                return None
        return sol

    def dict_has(self, st, c, key):
        p, v = self.dict_lookup(st, c, key)
        return p

    def dict_set(self, st, ref, key, val):
        I = self.I
        c = st.heap[ref.loc]
        I.mark_write(st, ref, "[%s]" % (repr(key.v) if isinstance(key, K) else "key"))
        if ref.sub:
            return self.fam_store(st, ref, lambda cc: self.dict_put(st, cc, key, val))
        st.heap[ref.loc] = self.dict_put(st, c, key, val)

    def dict_put(self, st, c, key, val):
        I = self.I
        ents = []
        done = False
        for e in c.ents:
            if isinstance(e, Ent) and not e.vars and I.same(e.key, key):
                ents.append(Ent((), ONE, key, val))
                done = True
            else:
                ents.append(e)
        if not done:
            ents.append(Ent((), ONE, key, val))
        return DictC(ents, c.fun)

    def fam_store(self, st, ref, f):
        """write to one member of an object family: content(e) := (e==t ? f(content) : content)"""
        I = self.I
        c = st.heap[ref.loc]
        cond = ONE
        for v, t in ref.sub.items():
            cond = T.mul(cond, T.eq(v, t))
        mem = I.sub_content(c, ref.sub)
        new = f(mem)
        # express the written member in the family's own variables where t is a plain variable
        inv = {}
        for v, t in ref.sub.items():
            m = t.mono()
            if m and len(m[1]) == 1 and m[1][0][0].kind == "idx" and m[0] == 1:
                inv[m[1][0][0].data[0]] = T.idx(v)
        newf = I.sub_content(new, inv) if inv else new
        st.heap[ref.loc] = FamPhi.join(I, st, cond, newf, c, inv)

    def dict_update(self, st, ref, other):
        I = self.I
        oc = I.content(st, other)
        c = I.content(st, ref)
        if not isinstance(oc, DictC) or not isinstance(c, DictC):
            if isinstance(other, ExtBound) and other.name == "__dict__":
                for k, v in I.content(st, other.recv).attrs.items():
                    self.dict_set(st, ref, K(k), v)
                return
            I.note("dict.update opaque")
            st.heap[ref.loc] = I.opaque_content(DictC())
            return
        I.mark_write(st, ref, ".update")
        if oc.fun is None and all(isinstance(e, Ent) for e in oc.ents):
            for e in oc.ents:
                if not e.vars and e.guard is ONE:
                    self.dict_set(st, ref, e.key, e.val)
                else:
                    c = st.heap[ref.loc]
                    st.heap[ref.loc] = DictC(c.ents + [e], c.fun)
            return
        if c.fun is None and not c.ents:
            st.heap[ref.loc] = DictC(list(oc.ents), oc.fun)
            return
        if c.fun is not None and oc.fun is not None and not c.ents and not oc.ents:
            kv, h1, v1, k1 = c.fun
            kw, h2, v2, k2 = oc.fun
            h2 = T.subst(h2, {kw: T.idx(kv)})
            v2 = I.sub_val(v2, {kw: T.idx(kv)})
            st.heap[ref.loc] = DictC([], (kv, T.or_(h1, h2), I.phi(st, h2, v2, v1), SeqV(list(k1.segs) + [
                Seg(s.vars, T.mul(s.guard, ONE - T.subst(h1, {kv: I.term(st, s.val)})), s.val) for s in k2.segs])))
            return
        I.note("dict.update symbolic")
        st.heap[ref.loc] = I.opaque_content(c)

    # ============================================================ list ops
    def list_write(self, st, ref, f, what):
        I = self.I
        I.mark_write(st, ref, what)
        if ref.sub:
            self.fam_store(st, ref, f)
            return
        st.heap[ref.loc] = f(st.heap[ref.loc])

    def list_extend(self, st, ref, other):
        I = self.I
        segs = self.segs(st, other)
        if segs is None:
            I.note("extend by opaque")
            v = Var("u", T.opaque("n"))
            segs = [Seg((v,), ONE, Opq("elem"))]
        self.list_write(st, ref, lambda c: ListC(list(c.segs) + list(segs), c.kind), ".extend")

    # ============================================================ indexing
    def getitem(self, st, o, k):
        I = self.I
        if isinstance(o, PhiV):
            return I.phi(st, o.c, self.getitem(st, o.a, k), self.getitem(st, o.b, k))
        if isinstance(k, PhiV) and I.num(st, k) is None:
            return I.phi(st, k.c, self.getitem(st, o, k.a), self.getitem(st, o, k.b))
        if isinstance(o, Ref):
            c = I.content(st, o)
            if isinstance(c, DictC):
                p, v = self.dict_lookup(st, c, k)
                if v is None:
                    if c.fun is None and all(isinstance(e, Ent) for e in c.ents):
                        raise Raise("KeyError", str(k))
                    return I.opq("dict lookup")
                return I.undef_strip(v)
            if isinstance(c, ListC):
                return self.seq_getitem(st, o, c.segs, k)
            if isinstance(c, ArrC):
                return self.arr_getitem(st, o, c, k)
            if isinstance(c, InstC):
                return self.inst_getitem(st, o, c, k)
        if isinstance(o, K) and isinstance(o.v, tuple):
            o = Tup([K(x) for x in o.v])
        if isinstance(o, Tup):
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    return o.items[k.v]
                except IndexError:
                    raise Raise("IndexError", "tuple")
            if isinstance(k, SliceV):
                lo, hi, s = (x.v if isinstance(x, K) else None for x in (k.lo, k.hi, k.step))
                return Tup(o.items[lo:hi:s])
            return self.seq_at(st, [Seg((), ONE, x) for x in o.items], I.term(st, k))
        if isinstance(o, SeqV):
            return self.seq_getitem(st, None, o.segs, k)
        if isinstance(o, K) and isinstance(o.v, str):
            if isinstance(k, K):
                return K(o.v[k.v])
            if isinstance(k, SliceV) and all(x is None or isinstance(x, K) for x in (k.lo, k.hi, k.step)):
                return K(o.v[slice(*[x.v if x is not None else None for x in (k.lo, k.hi, k.step)])])
        if isinstance(o, ExtBound) and o.name == "__dict__" and isinstance(k, K):
            return I.getattr(st, o.recv, k.v)
        if isinstance(o, N):
            m = o.val.mono()
            if m and len(m[1]) == 1 and m[1][0][0].kind == "tup" and isinstance(k, K):
                return N(m[1][0][0].data[k.v], ZERO, "any")
            return N(T.app("item", o.val, I.term(st, k) if not isinstance(k, SliceV) else T.opaque("slice")), ZERO, "any")
        if isinstance(o, Opq):
            return Opq(str(o.tag) + "[]")
        if isinstance(o, Ext):
            return I.opq("ext item")
        return I.opq("getitem")

    def seq_getitem(self, st, ref, segs, k):
        I = self.I
        if isinstance(k, SliceV):
            if self.plain(segs) and all(x is None or isinstance(x, K) for x in (k.lo, k.hi, k.step)):
                return I.alloc(st, ListC(segs[slice(*[x.v if x is not None else None for x in (k.lo, k.hi, k.step)])]))
            if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].guard is ONE and len(segs[0].vars) == 1 and k.step is None:
                s = segs[0]
                v = s.vars[0]
                lo = I.term(st, k.lo) if k.lo is not None and not (isinstance(k.lo, K) and k.lo.v is None) else ZERO
                hi = I.term(st, k.hi) if k.hi is not None and not (isinstance(k.hi, K) and k.hi.v is None) else v.size
                if lo.is_const and lo.cval < 0:
                    lo = v.size + lo
                if hi.is_const and hi.cval < 0:
                    hi = v.size + hi
                if lo is ZERO and hi is v.size:
                    return I.alloc(st, ListC(list(segs)))
                w = Var(v.name.split("#")[0], hi - lo)
                return I.alloc(st, ListC([Seg((w,), ONE, I.sub_val(s.val, {v: T.idx(w) + lo}))]))
            return I.opq("list slice")
        if isinstance(k, (K, N)):
            t = I.term(st, k)
            return self.seq_at(st, segs, t)
        return I.opq("list index")

    def is_full(self, s):
        return isinstance(s, SliceV) and s.step is None and (s.lo is None or isinstance(s.lo, K) and s.lo.v in (None, 0)) \
            and (s.hi is None or isinstance(s.hi, K) and s.hi.v is None)

    def norm_index(self, st, c, k):
        ks = list(k.items) if isinstance(k, Tup) else [k]
        # expand ellipsis
        for i, x in enumerate(ks):
            if isinstance(x, K) and x.v is Ellipsis:
                n = len(c.dims) - (len(ks) - 1 - sum(1 for y in ks if isinstance(y, K) and y.v is None))
                ks[i:i + 1] = [SliceV(None, None, None)] * n
                break
        return ks

    def slice_dim(self, st, d, s, arr=None):
        """(new dim, {var: index}) for a slice of a dim, or None"""
        I = self.I
        if self.is_full(s):
            return d, {}
        if d.guard is not ONE:
            return None
        n = d.size()
        step = I.term(st, s.step) if s.step is not None and not (isinstance(s.step, K) and s.step.v is None) else ONE
        lo = I.term(st, s.lo) if s.lo is not None and not (isinstance(s.lo, K) and s.lo.v is None) else None
        hi = I.term(st, s.hi) if s.hi is not None and not (isinstance(s.hi, K) and s.hi.v is None) else None
        if step is not ONE:
            if step.is_const and step.cval == -1 and lo is None and hi is None:
                w = Var("rev", n)
                return Dim([w]), I.split_flat(n - 1 - T.idx(w), list(d.vars))
            if step.is_const and step.cval > 0 and lo is None and hi is None and n.is_const:
                w = Var("st", -(-n.cval // step.cval))
                return Dim([w]), I.split_flat(T.idx(w) * step, list(d.vars))
            lo = lo if lo is not None else ZERO
            if step.is_const and step.cval > 0:
                hi = hi if hi is not None else n
                w = Var("st", T.floordiv(hi - lo + step - 1, step))
                return Dim([w]), I.split_flat(lo + T.idx(w) * step, list(d.vars))
            return None
        lo = lo if lo is not None else ZERO
        hi = hi if hi is not None else n
        if lo.is_const and lo.cval < 0:
            lo = n + lo
        if hi.is_const and hi.cval < 0:
            hi = n + hi
        if lo is ZERO and hi is n:
            return d, {}
        w = Var(d.vars[0].name.split("#")[0] if d.vars else "w", hi - lo)
        t = lo + T.idx(w)
        return Dim([w]), I.split_flat(t, list(d.vars))

    def arr_getitem(self, st, ref, c, k):
        I = self.I
        ks = self.norm_index(st, c, k)
        if any(isinstance(x, PhiV) for x in ks):
            ks = [I.simp(N(*I.num(st, x))) if isinstance(x, PhiV) and I.num(st, x) is not None else x for x in ks]
        # full boolean mask
        if len(ks) == 1 and isinstance(ks[0], (Ref,)):
            m = self.arrc(st, ks[0])
            if m is not None and m.kind == "bool" and len(m.dims) == len(c.dims) and len(c.dims) >= 1:
                u = I.unify_dims(c, m)
                if u is None:
                    return I.opq("mask dims")
                a, mk = u
                vs = [v for d in a.dims for v in d.vars]
                g = mk.val
                for d in a.dims:
                    g = T.mul(g, d.guard)
                return I.arr(st, [Dim(vs, g)], a.val, a.miss, a.kind)
        dims = []
        mp = {}
        src = list(c.dims)
        fancy = []
        i = 0
        for x in ks:
            if isinstance(x, K) and x.v is None:
                dims.append(Dim(()))
                continue
            if i >= len(src):
                I.errors.append(("index", I.where(), "too many indices"))
                return I.opq("too many indices")
            d = src[i]
            i += 1
            if isinstance(x, SliceV):
                r = self.slice_dim(st, d, x)
                if r is None:
                    return I.opq("slice")
                nd, m = r
                if nd is d and any(v in dd.vars for dd in dims for v in d.vars):
                    nv = [Var(v.name.split("#")[0], v.size) for v in d.vars]
                    m = {v: T.idx(w) for v, w in zip(d.vars, nv)}
                    nd = Dim(nv, T.subst(d.guard, m))
                mp.update(m)
                dims.append(nd)
                continue
            if isinstance(x, (K, N)) and (isinstance(x, N) or isinstance(x.v, (int, bool))):
                t = I.term(st, x)
                if d.guard is not ONE:
                    e = self.seq_at(st, [Seg(d.vars, d.guard, N(d.flat()))], t)
                    if isinstance(e, Opq) or len(d.vars) != 1:
                        return I.opq("index into filtered dim")
                    mp[d.vars[0]] = I.term(st, e)
                    continue
                if t.is_const and t.cval < 0:
                    t = d.size() + t
                if t.is_const and d.size().is_const and d.guard is ONE and not 0 <= t.cval < d.size().cval:
                    raise Raise("IndexError", "index %s of an axis of size %s" % (t, d.size()))
                mp.update(I.split_flat(t, list(d.vars)))
                continue
            a = self.arrc(st, x)
            if a is None:
                if isinstance(x, Opq):
                    return I.opq("opaque index")
                return I.opq("index kind")
            if a.kind == "bool" and len(a.dims) == 1:
                r = I.match_dim(d, a.dims[0])
                if r is None:
                    return self.shape_error(st, [ArrC([d], ONE), a], "mask")
                nd, ma, mb = r
                g = T.mul(nd.guard, T.subst(a.val, mb))
                mp.update(ma)
                dims.append(Dim(nd.vars, g))
                continue
            if len(a.dims) == 0:
                mp.update(I.split_flat(a.val, list(d.vars)))
                continue
            if len(a.dims) == 1:
                if fancy:
                    r = I.match_dim(fancy[0], a.dims[0])
                    if r is None:
                        return I.opq("fancy broadcast")
                    mp.update(I.split_flat(T.subst(a.val, r[2]), list(d.vars)))
                    continue
                ad = a.dims[0]
                av = a.val
                if any(v in dd.vars for dd in list(dims) + src for v in ad.vars) and not (av is d.flat()):
                    nv = [Var(v.name.split("#")[0], v.size) for v in ad.vars]
                    ren = {v: T.idx(w) for v, w in zip(ad.vars, nv)}
                    ad = Dim(nv, T.subst(ad.guard, ren))
                    av = T.subst(av, ren)
                if d.guard is not ONE:
                    return I.opq("fancy on filtered")
                fancy.append(ad)
                dims.append(ad)
                mp.update(I.split_flat(av, list(d.vars)))
                continue
            if len(a.dims) == 2 and len(ks) == 1 and a.kind != "bool":
                dims.extend(a.dims)
                mp.update(I.split_flat(a.val, list(d.vars)))
                continue
            return I.opq("fancy index")
        dims.extend(src[i:])
        mp = {v: t for v, t in mp.items()}
        val, miss = T.subst(c.val, mp), T.subst(c.miss, mp)
        if len(dims) > 1:
            # a filtered axis of a multi-dimensional array: re-index it contiguously
            for q, d in enumerate(dims):
                if d.guard is not ONE and len(d.vars) == 1 and d.guard.free <= {d.vars[0]} and not d.guard.opaque:
                    v = d.vars[0]
                    g = T.abbrev_bool(d.guard)
                    j = Var(v.name.split("#")[0], T.ssum(v, g))
                    t = T.nth(v, g, T.idx(j))
                    val, miss = T.subst(val, {v: t}), T.subst(miss, {v: t})
                    dims[q] = Dim([j])
        dims = [Dim(d.vars, T.subst(d.guard, {}) if d.guard is ONE else d.guard) for d in dims]
        if not dims:
            return I.simp(N(val, miss, c.kind))
        r = I.arr(st, dims, val, miss, c.kind)
        st.heap[r.loc].base = ref.loc if not fancy else None
        return r

    def setitem(self, st, o, k, v):
        I = self.I
        if isinstance(o, PhiV):
            h = []
            for x, b in ((o.a, ONE), (o.b, ZERO)):
                s = st.copy()
                s.pc = T.mul(st.pc, o.c if b is ONE else ONE - o.c)
                if s.pc is not ZERO:
                    self.setitem(s, self.given(x, o.c, b), self.given(k, o.c, b), self.given(v, o.c, b))
                h.append(s)
            st.heap = I.join(o.c, *h).heap
            return
        if isinstance(o, Ref):
            c = I.content(st, o)
            if isinstance(c, DictC):
                return self.dict_set(st, o, k, v)
            if isinstance(c, ArrC):
                if isinstance(v, K) and isinstance(v.v, str) and c.kind in ("num", "int"):
                    try:
                        v = K(float(v.v))
                    except ValueError:
                        raise Raise("ValueError", "could not convert string to float")
                return self.arr_store(st, o, c, k, lambda sub, sm: self.store_val(st, v), v)
            if isinstance(c, ListC):
                return self.list_store(st, o, c, k, v)
            if isinstance(c, InstC):
                I.event(st, "setitem_inst", repr(c.cls), repr(k)[:40])
                return
        if isinstance(o, ExtBound) and o.name == "__dict__" and isinstance(k, K):
            return I.setattr(st, o.recv, k.v, v)
        I.event(st, "setitem_opaque", repr(o)[:60])

    def given(self, v, c, b):
        """the value where the condition c is known to be b"""
        m = c.mono()
        if m is None:
            c, b = ONE - c, ONE - b
            m = c.mono()
        if m is None or m[0] != 1 or len(m[1]) != 1 or m[1][0][1] != 1:
            return v
        a = m[1][0][0]
        memo = {}

        def go(x):
            if isinstance(x, N):
                return self.I.simp(N(T.map_atoms(x.val, lambda y: b if y is a else None, memo), T.map_atoms(x.miss, lambda y: b if y is a else None, memo), x.kind))
            if isinstance(x, Tup):
                return Tup([go(y) for y in x.items])
            if isinstance(x, PhiV):
                d = T.map_atoms(x.c, lambda y: b if y is a else None, memo)
                return go(x.a) if d is ONE else go(x.b) if d is ZERO else PhiV(d, go(x.a), go(x.b))
            return x
        return go(v)

    def store_val(self, st, v):
        return self.arrc(st, v)

    def list_store(self, st, ref, c, k, v):
        I = self.I
        segs = c.segs
        if isinstance(k, SliceV):
            if self.is_full(k):
                ns = self.segs(st, v)
                if ns is not None:
                    I.mark_write(st, ref, "[:]")
                    st.heap[ref.loc] = ListC(list(ns), c.kind)
                    return
            I.note("list slice store")
            st.heap[ref.loc] = I.opaque_content(c)
            return
        t = I.term(st, k)
        if self.plain(segs) and t.is_const:
            i = int(t.cval)
            if not -len(segs) <= i < len(segs):
                raise Raise("IndexError", "list assignment")
            n = list(segs)
            n[i] = Seg((), ONE, v)
            return self.list_write(st, ref, lambda cc: ListC(n, c.kind), "[i]")
        if any(isinstance(s, MuSeg) for s in segs):
            key = [s.key for s in segs if isinstance(s, MuSeg)][0]
            raise ElemRestart(key)
        if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].guard is ONE and len(segs[0].vars) == 1:
            s = segs[0]
            w = s.vars[0]
            if isinstance(s.val, Ref) and isinstance(v, Ref):
                oc = st.heap.get(s.val.loc)
                nc = I.content(st, v)
                if isinstance(oc, ListC) and isinstance(nc, ListC) and w in I.heapmeta[s.val.loc].birth:
                    cond = T.eq(w, t)
                    I.mark_write(st, ref, "[i]")
                    # rename: under cond, t is w
                    st.heap[s.val.loc] = ListC(I.join_segs(st, cond, list(nc.segs), list(oc.segs)), oc.kind)
                    return
            nv = I.phi(st, T.eq(w, t), v, s.val)
            return self.list_write(st, ref, lambda cc: ListC([Seg(s.vars, ONE, nv)], c.kind), "[i]")
        I.note("list store not modelled")
        I.mark_write(st, ref, "[i]")
        st.heap[ref.loc] = I.opaque_content(c)

    def arr_store(self, st, ref, c, k, getv, v):
        """A[k] = v"""
        I = self.I
        I.mark_write(st, ref, "[...] =")
        if ref.sub:
            self.fam_store(st, ref, lambda cc: self.arr_stored(st, cc, k, v) or I.opaque_content(cc))
            return
        n = self.arr_stored(st, c, k, v)
        if n is None:
            I.note("array store not modelled")
            n = ArrC(c.dims, T.opaque("store", *[d.flat() for d in c.dims if d.vars]), ZERO, c.kind)
        n.base = c.base
        st.heap[ref.loc] = n

    def select(self, st, c, k):
        """(array possibly re-dimensioned, cond Poly, [(dim, {sel var: own index})]) for a store target"""
        I = self.I
        ks = self.norm_index(st, c, k)
        dims = list(c.dims)
        val, miss = c.val, c.miss
        cond = ONE
        sel = []          # list of (selected Dim, mapping from its vars to own terms)
        if len(ks) == 1 and isinstance(ks[0], Ref):
            m = self.arrc(st, ks[0])
            if m is not None and m.kind == "bool" and len(m.dims) == len(dims):
                u = I.unify_dims(ArrC(dims, val, miss, c.kind), m)
                if u is None:
                    return None
                a, mk = u
                vs = [v for d in a.dims for v in d.vars]
                return ArrC(a.dims, a.val, a.miss, c.kind), mk.val, [("mask", Dim(vs, mk.val))]
        i = 0
        for x in ks:
            if isinstance(x, PhiV):
                n = I.num(st, x)
                if n is None:
                    return None
                x = N(n[0], n[1])
            if isinstance(x, K) and x.v is None:
                sel.append(("one", None, None))
                continue
            if i >= len(dims):
                return None
            d = dims[i]
            if isinstance(x, SliceV):
                if self.is_full(x):
                    sel.append(("full", i, ZERO))
                else:
                    n = d.size()
                    if d.guard is not ONE or x.step is not None and not (isinstance(x.step, K) and x.step.v in (None, 1)):
                        return None
                    lo = I.term(st, x.lo) if x.lo is not None and not (isinstance(x.lo, K) and x.lo.v is None) else ZERO
                    hi = I.term(st, x.hi) if x.hi is not None and not (isinstance(x.hi, K) and x.hi.v is None) else n
                    if lo.is_const and lo.cval < 0:
                        lo = n + lo
                    if hi.is_const and hi.cval < 0:
                        hi = n + hi
                    # block slice of a flat dim: refine the dim into (outer, inner)
                    blk = hi - lo
                    q, r = T.divmod_(lo, blk) if not (blk.is_const and blk.cval == 0) else (None, None)
                    outer = None
                    if len(d.vars) == 1 and q is not None and r is ZERO and lo is not ZERO and not q.is_const:
                        qq, rr = T.divmod_(n, blk)
                        if rr is ZERO:
                            v = d.vars[0]
                            o = Var("blk", qq)
                            inn = Var(v.name.split("#")[0], blk)
                            nd = Dim([o, inn])
                            ren = {v: nd.flat()}
                            val, miss = T.subst(val, ren), T.subst(miss, ren)
                            dims[i] = nd
                            d = nd
                            outer = (o, inn, q)
                    elif len(d.vars) == 2 and q is not None and r is ZERO and d.vars[1].size is blk:
                        outer = (d.vars[0], d.vars[1], q)
                    if outer is not None:
                        cond = T.mul(cond, T.eq(outer[0], outer[2]))
                        sel.append(("slice", i, T.idx(outer[1]), blk))
                    else:
                        f = d.flat()
                        cond = T.and_(cond, T.ge0(f - lo), T.gt0(hi - f))
                        sel.append(("slice", i, f - lo, blk))
                i += 1
                continue
            if isinstance(x, (K, N)):
                t = I.term(st, x)
                if d.guard is not ONE:
                    return None
                if t.is_const and t.cval < 0:
                    t = d.size() + t
                if t.is_const and d.size().is_const and d.guard is ONE and not 0 <= t.cval < d.size().cval:
                    raise Raise("IndexError", "index %s of an axis of size %s" % (t, d.size()))
                if len(d.vars) > 1:
                    mp = I.split_flat(t, list(d.vars))
                    for v, tt in mp.items():
                        cond = T.mul(cond, T.eq(v, tt))
                else:
                    cond = T.mul(cond, T.eq(d.flat(), t))
                i += 1
                continue
            a = self.arrc(st, x)
            if a is None:
                return None
            if a.kind == "bool" and len(a.dims) == 1:
                r = I.match_dim(d, a.dims[0])
                if r is None:
                    return None
                mk = T.subst(a.val, r[2])
                cond = T.mul(cond, mk)
                sel.append(("full", i, ZERO))
                i += 1
                continue
            if len(a.dims) == 0:
                cond = T.mul(cond, T.eq(d.flat(), a.val))
                i += 1
                continue
            if len(a.dims) == 1 and a.dims[0].vars:
                ad = a.dims[0]
                ws = [Var("f", v.size) for v in ad.vars]
                ren = {v: T.idx(w) for v, w in zip(ad.vars, ws)}
                f = T.subst(a.val, ren)
                g = T.subst(ad.guard, ren)
                e = T.eq(d.flat(), f)
                cond = T.mul(cond, T.any_(ws, T.mul(g, e)))
                if len(ws) == 1:
                    pos = T.ssum(ws, T.mul(T.mul(g, e), T.idx(ws[0])))
                    if f is T.idx(ws[0]):
                        pos = d.flat()
                        cond = T.mul(ONE, cond)
                    sel.append(("pos", i, pos, ad))
                else:
                    sel.append(("opaque", i, None, ad))
                i += 1
                continue
            return None
        for j in range(i, len(dims)):
            sel.append(("full", j, ZERO))
        return ArrC(dims, val, miss, c.kind), cond, sel

    def arr_stored(self, st, c, k, v):
        I = self.I
        r = self.select(st, c, k)
        if r is None:
            return None
        a, cond, sel = r
        if isinstance(v, Opq):
            return None
        va = self.arrc(st, v)
        if va is None:
            return None
        mp = self.store_map(a, sel, va)
        if mp is None:
            return None
        vv, vm = T.subst(va.val, mp), T.subst(va.miss, mp)
        # reading the stored element back: mu(t) under [v == t]
        vv = self.reindex(vv, a, k, st)
        if vm is ONE:
            val = a.val
        elif a.miss is ONE and cond is not ONE:
            val = T.phi(cond, vv, a.val) if a.val is not ZERO else vv
            if T.mul(cond, cond) is cond:
                pass
        else:
            val = T.phi(cond, vv, a.val)
        miss = T.phi(cond, vm, a.miss)
        kind = a.kind if a.kind == va.kind else "num"
        if a.kind == "bool" and va.kind == "bool":
            kind = "bool"
        return I.norm_arr(ArrC(a.dims, val, miss, kind))

    def reindex(self, p, a, k, st):
        return p

    def store_map(self, a, sel, va):
        """map va's dim variables to a's own indices"""
        I = self.I
        if len(sel) == 1 and sel[0][0] == "mask":
            if not va.dims or not any(d.vars for d in va.dims):
                return {}
            if len(va.dims) != 1:
                return None
            d = va.dims[0]
            m = sel[0][1]
            if len(d.vars) == 1 and d.guard is ONE and d.size() is T.ssum(list(m.vars), m.guard):
                # the k-th stored value goes to the k-th selected position, in row-major order
                ws = [Var(v.name + "'", v.size) for v in m.vars]
                ren = {x: T.idx(y) for x, y in zip(m.vars, ws)}
                before = T.gt0(Dim(m.vars).flat() - Dim(ws).flat())
                return {d.vars[0]: T.ssum(ws, T.mul(T.subst(m.guard, ren), before))}
            if len(d.vars) != len(m.vars) or any(x.size is not y.size for x, y in zip(d.vars, m.vars)):
                return None
            mp = {x: T.idx(y) for x, y in zip(d.vars, m.vars)}
            if T.subst(d.guard, mp) is not m.guard:
                return None
            return mp
        vd = [d for d in va.dims]
        # strip leading unit dims
        while len(vd) > len(sel) and not vd[0].vars:
            vd = vd[1:]
        if len(vd) > len(sel):
            n = vd[0].size()
            if not sel and len(vd) == 1 and n.is_const and n.cval != 1:
                raise Raise("ValueError", "setting an array element with a sequence")
            return None
        mp = {}
        for d, s in zip(reversed(vd), reversed(sel)):
            d = self.unit(d)
            if not d.vars:
                continue
            if s[0] == "one":
                return None
            if s[0] == "full":
                own = a.dims[s[1]]
                if own.vars == d.vars and own.guard is d.guard:
                    continue
                if len(own.vars) == len(d.vars) and all(x.size is y.size for x, y in zip(own.vars, d.vars)):
                    m = {y: T.idx(x) for x, y in zip(own.vars, d.vars)}
                    if own.guard is ONE and d.guard is ONE or T.subst(d.guard, m) is own.guard:
                        mp.update(m)
                        continue
                if d.guard is not ONE or own.guard is not ONE:
                    return None
                if own.size() is not d.size():
                    I.errors.append(("shape", I.where(), "store (%s) into (%s)" % (d.size(), own.size())))
                    return None
                mp.update(I.split_flat(own.flat(), list(d.vars)))
                continue
            if s[0] == "slice":
                if d.guard is not ONE:
                    return None
                if d.size() is not s[3]:
                    if d.size().is_const and s[3].is_const and d.size().cval not in (1, s[3].cval):
                        raise Raise("ValueError", "could not broadcast")
                    if not (d.size().opaque or s[3].opaque):
                        I.note("slice store of different size")
                    return None
                mp.update(I.split_flat(s[2], list(d.vars)))
                continue
            if s[0] == "pos":
                if d.guard is not ONE and d.guard is not s[3].guard:
                    if len(d.vars) == len(s[3].vars) and T.subst(d.guard, {x: T.idx(y) for x, y in zip(d.vars, s[3].vars)}) is s[3].guard:
                        pass
                    else:
                        return None
                if d.guard is ONE and s[3].guard is not ONE:
                    # the rank of the position among the selected ones
                    w = Var("f", s[3].vars[0].size)
                    g = T.subst(s[3].guard, {s[3].vars[0]: T.idx(w)})
                    mp.update(I.split_flat(T.ssum([w], T.mul(g, T.gt0(s[2] - T.idx(w)))), list(d.vars)))
                    continue
                mp.update(I.split_flat(s[2], list(d.vars)) if d.guard is ONE else {d.vars[0]: s[2]})
                continue
            return None
        return mp

    def aug_setitem(self, st, o, k, op, rhs):
        I = self.I
        if isinstance(o, Ref):
            c = I.content(st, o)
            if isinstance(c, ArrC) and not o.sub:
                r = self.select(st, c, k)
                if r is not None and not isinstance(rhs, Opq):
                    a, cond, sel = r
                    va = self.arrc(st, rhs)
                    if va is not None:
                        mp = self.store_map(a, sel, va)
                        if mp is not None:
                            I.mark_write(st, o, "[...] %s=" % op)
                            x = T.subst(va.val, mp)
                            xm = T.subst(va.miss, mp)
                            # duplicated fancy indices: numpy keeps only one write; model plain int/slice exactly
                            if op == "Add":
                                val = a.val + T.mul(cond, x)
                            elif op == "Sub":
                                val = a.val - T.mul(cond, x)
                            elif op == "Mult":
                                val = T.phi(cond, T.mul(a.val, x), a.val)
                            elif op == "Div":
                                val = T.phi(cond, T.mul(a.val, T.power(x, -1)), a.val)
                            else:
                                val = None
                            if val is not None:
                                miss = T.or_(a.miss, T.mul(cond, xm))
                                n = ArrC(a.dims, val, miss, c.kind if c.kind != "bool" else "num")
                                n.base = c.base
                                st.heap[o.loc] = n
                                return
        old = self.getitem(st, o, k)
        if isinstance(old, Ref) and not old.sub and isinstance(st.heap.get(old.loc), ArrC):
            oc = st.heap[old.loc]
            st.heap[old.loc] = ArrC(oc.dims, oc.val, oc.miss, oc.kind)      # stored back below
        self.setitem(st, o, k, self.iop(st, op, old, rhs))

    def delitem(self, st, o, k):
        I = self.I
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            I.mark_write(st, o, "del [%s]" % (k.v if isinstance(k, K) else "?"))
            if isinstance(c, DictC):
                st.heap[o.loc] = DictC([e for e in c.ents if not (isinstance(e, Ent) and not e.vars and I.same(e.key, k))], c.fun)
                return
            if isinstance(c, ListC) and self.plain(c.segs) and isinstance(k, K):
                n = list(c.segs)
                del n[k.v]
                st.heap[o.loc] = ListC(n, c.kind)
                return
            st.heap[o.loc] = I.opaque_content(c)

    # ============================================================ reductions
    def axes_of(self, st, c, axis):
        n = len(c.dims)
        if axis is None or isinstance(axis, K) and axis.v is None:
            return list(range(n))
        if isinstance(axis, K) and isinstance(axis.v, int):
            return [axis.v % n] if n else []
        if isinstance(axis, Tup):
            return [a.v % n for a in axis.items]
        t = self.I.term(st, axis)
        if t.is_const:
            return [int(t.cval) % n]
        return None

    def reduce(self, st, name, v, kw, args=()):
        I = self.I
        args = list(args)
        axis = kw.get("axis", args[0] if args else None)
        if isinstance(v, PhiV):
            return I.phi(st, v.c, self.reduce(st, name, v.a, kw, args), self.reduce(st, name, v.b, kw, args))
        if isinstance(v, Opq):
            return I.opq("reduce of opaque")
        c = self.arrc(st, v)
        if c is None:
            return I.opq("reduce " + name)
        ax = self.axes_of(st, c, axis)
        if ax is None:
            return I.opq("symbolic axis")
        vs = [x for i in ax for x in c.dims[i].vars]
        g = ONE
        for i in ax:
            g = T.mul(g, c.dims[i].guard)
        keep = kw.get("keepdims")
        if keep is not None and isinstance(keep, K) and keep.v:
            dims = [Dim(()) if i in ax else d for i, d in enumerate(c.dims)]
        else:
            dims = [d for i, d in enumerate(c.dims) if i not in ax]
        prs = ONE - c.miss
        nan = name.startswith("nan")
        base = name[3:] if nan else name
        ddof = kw.get("ddof")
        dd = I.term(st, ddof) if ddof is not None else ZERO
        kind = "num"
        rest_dims = sum(1 for d in dims if d.vars)
        if "where" in kw:
            w = self.arrc(st, kw["where"])
            if w is None:
                return I.opq("where=")
            u = I.unify_dims(c, w)
            if u is None:
                return I.opq("where= dims")
            g = T.mul(g, u[1].val)
        val, miss = self.red_core(base, nan, vs, g, c.val, c.miss, dd, rest_dims)
        if val is None:
            return I.opq("reduction " + name)
        if base in ("any", "all"):
            kind = "bool"
        elif base in ("sum", "min", "max", "prod") and c.kind in ("int", "bool"):
            kind = "int"
        if not dims:
            return I.simp(N(val, miss, kind))
        return I.arr(st, dims, val, miss, kind)

    def red_core(self, base, nan, vs, g, val, miss, dd, rest):
        prs = ONE - miss
        w = T.mul(g, prs) if nan else g
        mout = ZERO
        if not nan and miss is not ZERO:
            mout = T.any_(vs, T.mul(g, miss))
            val = val
        n = T.ssum(vs, w)
        if nan and miss is not ZERO and base not in ("sum", "prod") and rest >= 2:
            mout = T.eq0(n)
        if base == "sum":
            return T.ssum(vs, T.mul(w, val)), mout
        if base == "mean":
            return T.ssum(vs, T.mul(w, val)) / n, mout
        if base in ("std", "var"):
            m = T.ssum(vs, T.mul(w, val)) / n
            ss = T.ssum(vs, T.mul(w, T.power(val, 2))) - n * T.power(m, 2)
            # nonneg by construction
            q = T.mul(ss, T.power(n - dd, -1))
            if base == "var":
                return q, mout
            return self.sqrt_nn(q), mout
        if base in ("max", "min", "amax", "amin"):
            k = "rmax" if "max" in base else "rmin"
            if w is ONE:
                return T.red(k, vs, val), mout
            return T.red(k, vs, val, w), mout
        if base == "any":
            return T.any_(vs, T.mul(g, val)), ZERO
        if base == "all":
            return T.all_(vs, val, g), ZERO
        if base == "prod":
            return T.red("rprod", vs, val, w, symmetric=True), mout
        if base == "median":
            return T.red("median", vs, val, w, symmetric=True), mout
        if base in ("argmax", "argmin", "argsort", "cumsum"):
            return None, None
        return None, None

    def sqrt_nn(self, q):
        return T.power(q, Fraction(1, 2))

    def percentile(self, st, v, q, kw, nan):
        I = self.I
        c = self.arrc(st, v)
        if c is None:
            return I.opq("percentile")
        ax = self.axes_of(st, c, kw.get("axis"))
        vs = [x for i in ax for x in c.dims[i].vars]
        g = ONE
        for i in ax:
            g = T.mul(g, c.dims[i].guard)
        dims = [d for i, d in enumerate(c.dims) if i not in ax]
        t = I.term(st, q)
        w = T.mul(g, ONE - c.miss) if nan else g
        val = T.red("pctl", vs, c.val, w, t, symmetric=True)
        if not dims:
            return N(val)
        return I.arr(st, dims, val)

    # ============================================================ numpy helpers
    def shape_arg(self, st, v):
        """list of size Polys"""
        I = self.I
        if isinstance(v, (K, N)):
            return [I.term(st, v)]
        segs = self.expand(self.segs(st, v)) if not isinstance(v, Opq) else None
        if segs is None or not self.plain(segs):
            return None
        return [I.term(st, s.val) for s in segs]

    def mkdims(self, sizes):
        out = []
        for s in sizes:
            if s.is_const and s.cval == 1:
                out.append(Dim(()))
            else:
                out.append(Dim([Var("i", s)]))
        return out

    def filled(self, st, shape, val, miss=ZERO, kind="num"):
        sz = self.shape_arg(st, shape)
        if sz is None:
            return self.I.opq("shape")
        dims = self.mkdims(sz)
        return self.I.arr(st, dims, val, miss, kind)

    def tile(self, st, v, reps):
        I = self.I
        c = self.arrc(st, v)
        if c is None:
            return I.opq("tile")
        r = self.shape_arg(st, reps)
        if r is None:
            return I.opq("tile reps")
        dims = list(c.dims)
        n = max(len(r), len(dims))
        r = [ONE] * (n - len(r)) + r
        dims = [Dim(())] * (n - len(dims)) + dims
        out = []
        for s, d in zip(r, dims):
            if s is ONE:
                out.append(d)
            else:
                w = Var("t", s)
                if d.guard is not ONE:
                    return I.opq("tile filtered")
                if not d.vars:
                    out.append(Dim([w]))
                else:
                    out.append(Dim([w] + list(d.vars)))
        return I.arr(st, out, c.val, c.miss, c.kind)

    def repeat(self, st, v, reps, kw):
        I = self.I
        c = self.arrc(st, v)
        r = I.term(st, reps)
        if c is None or r.opaque or isinstance(reps, Ref):
            return I.opq("repeat")
        axis = kw.get("axis")
        if axis is None or isinstance(axis, K) and axis.v is None:
            vs = [x for d in c.dims for x in d.vars]
            if any(d.guard is not ONE for d in c.dims):
                return I.opq("repeat")
            return I.arr(st, [Dim(vs + [Var("rp", r)])], c.val, c.miss, c.kind)
        i = self.axes_of(st, c, axis)[0]
        dims = list(c.dims)
        dims[i] = Dim(list(dims[i].vars) + [Var("rp", r)], dims[i].guard)
        return I.arr(st, dims, c.val, c.miss, c.kind)

    def reshape(self, st, v, shape):
        I = self.I
        c = self.arrc(st, v)
        sz = self.shape_arg(st, shape)
        if c is None or sz is None:
            return I.opq("reshape")
        if len(sz) == 1 and sz[0].is_const and sz[0].cval == -1:
            return self.ravel(st, v)
        if any(d.guard is not ONE for d in c.dims):
            return I.opq("reshape filtered")
        vs = [x for d in c.dims for x in d.vars if not (x.size.is_const and x.size.cval == 1)]
        tot = ONE
        for x in vs:
            tot = T.mul(tot, x.size)
        known = ONE
        neg = None
        for i, s in enumerate(sz):
            if s.is_const and s.cval == -1:
                neg = i
            else:
                known = T.mul(known, s)
        if neg is not None:
            sz[neg] = T.mul(tot, T.power(known, -1))
        # greedy grouping
        dims = []
        k = 0
        ok = True
        for s in sz:
            if s is ONE:
                dims.append(Dim(()))
                continue
            acc = ONE
            grp = []
            while k < len(vs) and acc is not s:
                acc = T.mul(acc, vs[k].size)
                grp.append(vs[k])
                k += 1
            if acc is not s:
                ok = False
                break
            dims.append(Dim(grp))
        if ok and k == len(vs):
            return I.arr(st, dims, c.val, c.miss, c.kind)
        prod = ONE
        for s in sz:
            prod = T.mul(prod, s)
        if prod is not tot:
            I.errors.append(("shape", I.where(), "reshape %s -> %s" % (tot, sz)))
            return I.opq("reshape size")
        # general: recompute through the flat index
        dims = self.mkdims(sz)
        flat = ZERO
        for d, s in zip(dims, sz):
            flat = T.mul(flat, s) + d.flat()
        mp = I.split_flat(flat, vs)
        return I.arr(st, dims, T.subst(c.val, mp), T.subst(c.miss, mp), c.kind)

    def ravel(self, st, v):
        I = self.I
        c = self.arrc(st, v)
        if c is None:
            return I.opq("ravel")
        vs = [x for d in c.dims for x in d.vars]
        g = ONE
        for d in c.dims:
            g = T.mul(g, d.guard)
        return I.arr(st, [Dim(vs, g)], c.val, c.miss, c.kind)

    def transpose(self, st, v, axes=None):
        I = self.I
        c = self.arrc(st, v)
        if c is None:
            return I.opq("transpose")
        if axes is None:
            dims = list(reversed(c.dims))
        else:
            dims = [c.dims[a] for a in axes]
        r = I.arr(st, dims, c.val, c.miss, c.kind)
        if isinstance(v, Ref):
            st.heap[r.loc].base = v.loc
        return r

    def matmul(self, st, a, b):
        I = self.I
        x, y = self.arrc(st, a), self.arrc(st, b)
        if x is None or y is None:
            return I.opq("matmul")
        if not x.dims or not y.dims:
            return self.arith(st, "Mult", a, b)
        dx = x.dims[-1]
        k = 0 if len(y.dims) == 1 else len(y.dims) - 2
        dy = y.dims[k]
        # rename y apart
        ren = {v: Var(v.name.split("#")[0], v.size) for d in y.dims for v in d.vars}
        mp = {v: T.idx(w) for v, w in ren.items()}
        ydims = [Dim([ren[v] for v in d.vars], T.subst(d.guard, mp)) for d in y.dims]
        yv, ym = T.subst(y.val, mp), T.subst(y.miss, mp)
        r = I.match_dim(dx, ydims[k])
        if r is None:
            return self.shape_error(st, [x, y], "matmul")
        d, ma, mb = r
        prod = T.mul(T.subst(x.val, ma), T.subst(yv, mb))
        val = T.ssum(list(d.vars), prod, d.guard)
        miss = ZERO
        mm = T.or_(T.subst(x.miss, ma), T.subst(ym, mb))
        if mm is not ZERO:
            miss = T.any_(list(d.vars), mm, d.guard)
        dims = list(x.dims[:-1]) + [q for i, q in enumerate(ydims) if i != k]
        if not dims:
            return I.simp(N(val, miss))
        return I.arr(st, dims, val, miss)

    # ============================================================ strings
    def strcat(self, st, parts):
        I = self.I
        if all(isinstance(p, K) for p in parts):
            return K("".join(str(p.v) for p in parts))
        # flatten nested cats and merge constants
        out = []
        for p in parts:
            t = I.term(st, p) if not (isinstance(p, K) and isinstance(p.v, (int, float)) and not isinstance(p.v, bool)) else T.strc(str(p.v))
            m = t.mono()
            if m and len(m[1]) == 1 and m[1][0][0].kind == "in" and m[1][0][0].data[0] == "cat":
                out.extend(m[1][0][0].data[1:])
            elif m and len(m[1]) == 1 and m[1][0][0].kind == "in" and m[1][0][0].data[0] == "str":
                out.append(m[1][0][0].data[1])
            else:
                out.append(t)
        merged = []
        for t in out:
            m = t.mono()
            if m and len(m[1]) == 1 and m[1][0][0].kind == "s":
                if m[1][0][0].data[0] == "":
                    continue
                if merged and merged[-1].mono() and merged[-1].mono()[1] and merged[-1].mono()[1][0][0].kind == "s":
                    prev = merged.pop().mono()[1][0][0].data[0]
                    merged.append(T.strc(prev + m[1][0][0].data[0]))
                    continue
            merged.append(t)
        return N(T.app("cat", *merged), ZERO, "str")

    def strfmt(self, st, tmpl, args, kwargs=None):
        I = self.I
        if isinstance(tmpl, K) and not kwargs and "{}" in tmpl.v and tmpl.v.count("{") == tmpl.v.count("{}") == len(args):
            parts = []
            pieces = tmpl.v.split("{}")
            for i, p in enumerate(pieces):
                parts.append(K(p))
                if i < len(args):
                    parts.append(args[i])
            return self.strcat(st, parts)
        ts = [I.term(st, tmpl)] + [I.term(st, a) for a in args] + [I.term(st, a) for k, a in sorted((kwargs or {}).items())]
        return N(T.app("fmt", *[t if not t.opaque else T.sym("?") for t in ts]), ZERO, "str")

    # ============================================================ attributes
    def attr(self, st, o, c, name):
        I = self.I
        if isinstance(c, ArrC):
            if name == "shape":
                return Tup([I.simp(N(d.size(), ZERO, "int")) for d in c.dims])
            if name == "T":
                return self.transpose(st, o)
            if name == "ndim":
                return K(len(c.dims))
            if name == "size":
                s = ONE
                for d in c.dims:
                    s = T.mul(s, d.size())
                return I.simp(N(s, ZERO, "int"))
            if name in ("values", "flat"):
                return o if name == "values" else self.ravel(st, o)
            if name == "dtype":
                return Ext("numpy.dtype:" + c.kind)
            return ExtBound(name, o)
        if isinstance(c, (ListC, DictC)):
            if name in ("shape", "T", "ndim"):
                raise Raise("AttributeError", name)
            return ExtBound(name, o)
        if isinstance(o, (K, N, Tup, SeqV, ExtBound, Opq)):
            if isinstance(o, Opq):
                return Opq("%s.%s" % (o.tag, name)) if False else ExtBound(name, o)
            if isinstance(o, K) and o.v is None:
                raise Raise("AttributeError", "None." + name)
            if isinstance(o, N) and o.val.opaque and name in ("shape", "size", "ndim", "T"):
                return I.opq(name + " of unknown")
            if name in ("shape",) and isinstance(o, (K, N)):
                return Tup([])
            return ExtBound(name, o)
        return I.opq("attr " + name)

    def inst_attr(self, st, o, c, name):
        I = self.I
        p = c.cls.path if isinstance(c.cls, Ext) else None
        if p == "pandas.DataFrame":
            if name in ("values",):
                return c.attrs["data"]
            if name == "T":
                return I.alloc(st, InstC(c.cls, {"data": self.transpose(st, c.attrs["data"])}))
            if name == "shape":
                return I.getattr(st, c.attrs["data"], "shape")
            return ExtBound(name, o)
        if p in ("optimize.result",):
            return None
        if p == "dataset" or p == "object":
            return None
        return ExtBound(name, o)

    def inst_getitem(self, st, o, c, k):
        return self.I.opq("getitem on instance")

    def ext_attr(self, path, name):
        full = path + "." + name
        if full in ("numpy.pi", "math.pi"):
            return N(T.sym("pi", pos=True))
        if full in ("numpy.nan", "numpy.NaN", "math.nan", "numpy.NAN"):
            return K(float("nan"))
        if full in ("numpy.inf", "math.inf"):
            return N(T.sym("inf", pos=True))
        if full in ("numpy.e", "math.e"):
            return N(T.fn("exp", ONE))
        if full == "numpy.newaxis":
            return K(None)
        if full == "sys.float_info.max":
            return N(T.sym("FLOAT_MAX", pos=True))
        if full in ("sys.float_info.epsilon",):
            return N(T.sym("FLOAT_EPS", pos=True))
        if full == "builtins.object.__init__":
            return Ext(full)
        return Ext(full)

    def enter(self, st, v):
        return v

    def hasattr(self, st, o, name):
        I = self.I
        if isinstance(o, PhiV):
            return T.phi(o.c, self.hasattr(st, o.a, name), self.hasattr(st, o.b, name))
        if isinstance(o, Ref):
            c = I.content(st, o)
            if isinstance(c, InstC):
                v = c.attrs.get(name)
                if v is not None:
                    if isinstance(v, PhiV):
                        if isinstance(v.a, K) and repr(v.a.v) == "UNDEF":
                            return ONE - v.c
                        if isinstance(v.b, K) and repr(v.b.v) == "UNDEF":
                            return v.c
                    return ONE
                if isinstance(c.cls, Cls):
                    oc, m = c.cls.lookup(name)
                    return ONE if m is not None else ZERO
                return ZERO
            if isinstance(c, (ListC, DictC)):
                return ONE if name in ("__len__", "__iter__", "__getitem__") or name in dir([]) and isinstance(c, ListC) or name in dir({}) and isinstance(c, DictC) else ZERO
            if isinstance(c, ArrC):
                return ONE if name in ("__len__", "__iter__", "shape", "__getitem__") else T.app("truth", T.opaque("hasattr"), boolean=True)
        if isinstance(o, Tup):
            return ONE if name in dir(()) else ZERO
        if isinstance(o, K):
            return ONE if hasattr(o.v, name) else ZERO
        if isinstance(o, N):
            if name == "__len__":
                return ONE if o.kind == "str" else ZERO
            return ZERO if o.kind in ("num", "int", "bool") else T.app("truth", T.opaque("hasattr"), boolean=True)
        if isinstance(o, Cls):
            oc, m = o.lookup(name)
            return ONE if m is not None else ZERO
        if isinstance(o, SeqV):
            return ONE if name == "__iter__" else ZERO
        return T.app("truth", T.opaque("hasattr"), boolean=True)

    def isinst(self, st, o, t):
        """Poly for isinstance(o, t)"""
        I = self.I
        if isinstance(t, Tup):
            r = ZERO
            for x in t.items:
                r = T.or_(r, self.isinst(st, o, x))
            return r
        if isinstance(o, PhiV):
            return T.phi(o.c, self.isinst(st, o.a, t), self.isinst(st, o.b, t))
        name = t.path.split(".")[-1] if isinstance(t, Ext) else None
        if isinstance(t, Cls):
            if isinstance(o, Ref):
                c = I.content(st, o)
                if isinstance(c, InstC) and isinstance(c.cls, Cls):
                    return ONE if any(x is t for x in c.cls.mro()) else ZERO
            if isinstance(o, Opq):
                return T.app("truth", o.poly(), boolean=True)
            return ZERO
        if name is None:
            return T.app("truth", T.opaque("isinstance"), boolean=True)
        if isinstance(o, K):
            py = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple, "dict": dict}.get(name)
            if name in ("Number", "Real"):
                return ONE if isinstance(o.v, (int, float)) else ZERO
            if py is None:
                return ZERO
            return ONE if isinstance(o.v, py) else ZERO
        if isinstance(o, N):
            m = {"bool": ("bool", "int"), "int": ("int",), "num": ("float",), "str": ("str",)}.get(o.kind)
            if o.kind == "any":
                mm = o.val.mono()
                if mm and len(mm[1]) == 1 and mm[1][0][0].kind == "tup":
                    return ONE if name == "tuple" else ZERO
                return T.app("isinstance_" + name, o.val, boolean=True)
            if name in ("Number", "Real"):
                return ONE if o.kind != "str" else ZERO
            return ONE if name in m else ZERO
        if isinstance(o, Tup):
            return ONE if name in ("tuple", "Sequence", "Iterable") else ZERO
        if isinstance(o, Ref):
            c = I.content(st, o)
            if isinstance(c, ListC):
                return ONE if name == c.kind or name in ("Sequence", "Iterable", "Collection") else ZERO
            if isinstance(c, DictC):
                return ONE if name in ("dict", "Mapping", "OrderedDict") else ZERO
            if isinstance(c, ArrC):
                return ONE if name == "ndarray" else ZERO
            return ZERO
        if isinstance(o, SeqV):
            return ONE if name == o.kind else ZERO
        if isinstance(o, Opq):
            return T.app("truth", o.poly(), boolean=True)
        return ZERO

    # ============================================================ copying
    def deepcopy(self, st, v, memo=None):
        I = self.I
        memo = {} if memo is None else memo
        if isinstance(v, Ref):
            key = (v.loc, tuple(sorted((k.digest, t.digest) for k, t in v.sub.items())))
            if key in memo:
                return memo[key]
            if not v.sub:
                c = st.heap[v.loc]
                birth = I.heapmeta[v.loc].birth
            else:
                c = I.deref(st, v)
                birth = tuple(I.loopvars)
            nr = I.alloc(st, c, birth=tuple(dict.fromkeys(tuple(birth) + tuple(I.loopvars))))
            memo[key] = nr
            if isinstance(c, ArrC):
                st.heap[nr.loc] = ArrC(c.dims, c.val, c.miss, c.kind)
            elif isinstance(c, ListC):
                st.heap[nr.loc] = ListC([s if isinstance(s, MuSeg) else Seg(s.vars, s.guard, self.deepcopy(st, s.val, memo)) for s in c.segs], c.kind)
            elif isinstance(c, DictC):
                f = c.fun
                if f is not None:
                    f = (f[0], f[1], self.deepcopy(st, f[2], memo), f[3])
                st.heap[nr.loc] = DictC([e if isinstance(e, MuEnt) else Ent(e.vars, e.guard, e.key, self.deepcopy(st, e.val, memo)) for e in c.ents], f)
            elif isinstance(c, InstC):
                st.heap[nr.loc] = InstC(c.cls, {k: self.deepcopy(st, x, memo) for k, x in c.attrs.items()})
            return nr
        if isinstance(v, Tup):
            return Tup([self.deepcopy(st, x, memo) for x in v.items])
        if isinstance(v, PhiV):
            return PhiV(v.c, self.deepcopy(st, v.a, memo), self.deepcopy(st, v.b, memo))
        return v

    def shallow(self, st, v):
        I = self.I
        if isinstance(v, Ref):
            c = I.content(st, v)
            if isinstance(c, ArrC):
                return I.alloc(st, ArrC(c.dims, c.val, c.miss, c.kind))
            if isinstance(c, ListC):
                return I.alloc(st, ListC(list(c.segs), c.kind))
            if isinstance(c, DictC):
                return I.alloc(st, DictC(list(c.ents), c.fun))
            if isinstance(c, InstC):
                return I.alloc(st, InstC(c.cls, dict(c.attrs)))
        return v

    # ============================================================ external calls
    def call_opaque(self, st, fv, args, kwargs):
        for a in list(args) + list(kwargs.values()):
            self.escape(st, a)
        if isinstance(fv, Opq):
            return Opq("call")
        return self.I.opq("call of %s" % type(fv).__name__)

    def escape(self, st, a):
        if isinstance(a, Ref):
            m = self.I.heapmeta.get(a.loc)
            if m is not None and m.owner not in ("fresh", "frame"):
                self.I.event(st, "escape", m.owner)

    def call_ext(self, st, path, args, kw, node):
        f = EXT.get(path)
        if f is None:
            path = canon(path)
            f = EXT.get(path)
        if f is not None:
            self.I.lib_path = path
            return f(self, st, args, kw, node)
        if any(path.startswith(q) for q in QUIET):
            self.I.event(st, "effect", path, tuple(args), dict(kw))
            return Opq(path)
        self.I.event(st, "effect", path, tuple(args), dict(kw))
        for a in args:
            self.escape(st, a)
        self.I.note("unmodelled call " + path)
        return Opq(path)

    def call_method(self, st, recv, name, args, kw, node):
        I = self.I
        if isinstance(recv, PhiV):
            h1, h2 = st.copy(), st.copy()
            a = self.call_method(h1, recv.a, name, args, kw, node)
            b = self.call_method(h2, recv.b, name, args, kw, node)
            j = I.join(recv.c, h1, h2)
            st.heap = j.heap
            return I.phi(st, recv.c, a, b)
        c = I.content(st, recv) if isinstance(recv, Ref) else None
        if isinstance(c, ArrC):
            m = METH_ARR.get(name)
        elif isinstance(c, ListC):
            m = METH_LIST.get(name)
        elif isinstance(c, DictC):
            m = METH_DICT.get(name)
        elif isinstance(c, InstC):
            m = METH_INST.get((c.cls.path if isinstance(c.cls, Ext) else None, name))
        elif isinstance(recv, (K, N)) and I.kind(recv) == "str":
            m = METH_STR.get(name)
        elif isinstance(recv, (K, N)):
            m = METH_NUM.get(name)
        elif isinstance(recv, Tup):
            m = METH_TUP.get(name)
        elif isinstance(recv, ExtBound) and recv.name == "__dict__":
            m = METH_VARS.get(name)
        elif isinstance(recv, Cls) and name == "__subclasses__":
            out = [k for k in I.project.classes if any(b is recv for b in k.bases)]
            return I.alloc(st, ListC([Seg((), ONE, k) for k in out]))
        else:
            m = None
        if m is not None:
            return m(self, st, recv, args, kw)
        if isinstance(recv, Opq) or isinstance(recv, ExtBound):
            I.event(st, "effect", "%s.%s" % (recv.tag if isinstance(recv, Opq) else recv.name, name), tuple(args), dict(kw))
            for a in args:
                self.escape(st, a)
            return Opq("%s.%s" % (recv.tag if isinstance(recv, Opq) else recv.name, name))
        I.note("unmodelled method %s on %s" % (name, type(c or recv).__name__))
        for a in args:
            self.escape(st, a)
        return Opq("method " + name)


class ElemRestart(Exception):
    def __init__(self, key):
        self.key = key


class FamPhi:
    @staticmethod
    def join(I, st, cond, new, old, inv):
        """content valued: cond ? new : old, field-wise"""
        if isinstance(new, DictC) and isinstance(old, DictC):
            return I.join_dict(st, cond, new, old)
        if isinstance(new, ListC) and isinstance(old, ListC):
            return ListC(I.join_segs(st, cond, new.segs, old.segs), old.kind)
        if isinstance(new, ArrC) and isinstance(old, ArrC):
            j = I.join_arr(cond, new, old)
            return j if j is not None else I.opaque_content(old)
        if isinstance(new, InstC) and isinstance(old, InstC):
            return InstC(old.cls, {k: I.phi(st, cond, new.attrs.get(k, K(None)), old.attrs.get(k, K(None))) for k in {**old.attrs, **new.attrs}})
        return old


def canon(path):
    for a, b in (("np.", "numpy."), ("scipy.stats.stats.", "scipy.stats."), ("numpy.linalg.linalg.", "numpy.linalg.")):
        if path.startswith(a):
            path = b + path[len(a):]
    return path


EXT = {}
METH_ARR, METH_LIST, METH_DICT, METH_STR, METH_NUM, METH_TUP, METH_INST, METH_VARS = {}, {}, {}, {}, {}, {}, {}, {}

from . import lib_ext  # noqa: E402,F401  (registers models)
