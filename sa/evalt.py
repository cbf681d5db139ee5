"""Random interpretation of value-graph terms (Gulwani & Necula style).

A Structure assigns a finite size to every axis, a random table to every input symbol and a
fixed meaning to the operators; two terms that denote the same value for every input agree in
every Structure.  Only terms extracted from the source are interpreted - no repository code is
imported or executed here.
"""
import hashlib
import decimal
from decimal import Decimal
import math
import statistics
import sys
from . import term as T

# terms are interpreted in 40-digit arithmetic, so that sums written in expanded form keep
# enough digits and exact zeros are recognised
decimal.setcontext(decimal.Context(prec=40, Emax=10 ** 7, Emin=-10 ** 7, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))
TOL = Decimal("1e-15")
DTOL = Decimal("1e-25")
BIG = Decimal(10) ** 200
PI = Decimal("3.141592653589793")
_coef = {}


def dec(x):
    return Decimal(x) if isinstance(x, float) else x


def coef(c):
    if c.denominator == 1:
        return c.numerator
    r = _coef.get(c)
    if r is None:
        r = _coef[c] = Decimal(c.numerator) / Decimal(c.denominator)
    return r

sys.setrecursionlimit(200000)


class Undef(Exception):
    pass


class Opaque(Exception):
    pass


def rnd(*key):
    """deterministic uniform in [0,1) from a key"""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


def canon(x):
    """hashable rounding of a value"""
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    if isinstance(x, int):
        return x
    x = float(x)
    if x == 0:
        return 0
    if abs(x) < 1e-9:
        return 0
    r = round(x)
    if abs(x - r) < 1e-7 * max(1, abs(x)):
        return int(r)
    return float("%.6e" % x)


def veq(a, b, tol=1e-6):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(veq(x, y, tol) for x, y in zip(a, b))
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Structure:
    def __init__(self, seed=0, sizes=None, tables=None, loops=None, iters=None, mu=None, steps=4_000_000):
        self.seed = seed
        self.world = ""
        self.sizes = sizes or {}
        self.tables = tables or {}
        self.loops = loops or {}
        self.t = dict(iters or {})
        self.mufun = mu
        self.memo = {}
        self.memo_t = {}
        self.memo_let = {}
        self.steps = steps
        self.default_iter = None
        self.max_iter = 1500
        self.iter_memo = {}
        self.tab = {}
        self.seen_bool = {}

    # -- symbols
    def size(self, name):
        if name not in self.sizes:
            self.sizes[name] = 2 + int(rnd(self.seed, "sz", name) * 3)
        return self.sizes[name]

    def table(self, a, args):
        name = a.data[0]
        f = self.tables.get(name)
        if f is not None:
            return dec(f(self, *args))
        if name == "chi2ppf":
            return chi2ppf(*args)
        if name.startswith("rnd:"):
            r = self.chance(name, args)
            if r is not None:
                return r
        return self.hashval(a, ("in", name) + tuple(canon(x) for x in args))

    def chance(self, name, args):
        """a value in the range of the random draw"""
        if name == "rnd:uniform":
            return Decimal(rnd(self.seed, name, canon(args)))
        if name == "rnd:perm":
            n = args[2]
        elif ":" in name[4:] or name in ("rnd:numpy.random.choice", "rnd:random.choice"):
            n = args[1]
        else:
            return None
        if isinstance(n, tuple) or n <= 0:
            raise Undef()
        n = int(n)
        if name == "rnd:perm" or name.endswith(":False") or "permutation" in name or "sample" in name:
            key = (self.seed, name, canon(args[:-1]))
            k = int(args[-1])
            if k >= n:
                raise Undef()
            return sorted(range(n), key=lambda i: rnd(key, i))[k]
        return int(rnd(self.seed, name, canon(args)) * n)

    def hashval(self, a, key):
        u = rnd(self.seed, key)
        if a.boolean:
            return 1 if u < 0.6 else 0
        if a.integer:
            return int(u * 6) + (1 if a.pos else 0) if (a.nonneg or a.pos) else int(u * 11) - 5
        if a.pos or a.nonneg:
            return Decimal(0.2 + 4 * u)
        return Decimal(-3 + 7 * u)

    # -- terms
    _free = {}
    _mudep = {}

    def fv(self, p):
        r = Structure._free.get(p)
        if r is None:
            r = tuple(sorted(p.free, key=lambda v: v.digest))
            Structure._free[p] = r
        return r

    @classmethod
    def mudep(cls, p):
        r = cls._mudep.get(p)
        if r is None:
            r = False
            for a in p.atoms():
                if a.kind == "mu" or (a.kind == "let" and cls.mudep(T.LETS[a.data[0]][1])) or \
                        any(cls.mudep(q) for q in T._args_of(a.data)):
                    r = True
                    break
                if a.kind in ("sum", "red"):
                    bvs = a.data[0] if a.kind == "sum" else a.data[1]
                    if any(cls.mudep(v.size) for v in bvs):
                        r = True
                        break
            cls._mudep[p] = r
        return r

    def cur_memo(self, p):
        if not self.loops or not self.mudep(p):
            return self.memo
        k = tuple(sorted(self.t.items()))
        return self.memo_t.setdefault(k, {})

    def ev(self, p, env=None):
        env = env or {}
        vs = self.fv(p)
        memo = self.cur_memo(p)
        key = (p, tuple(env[v] for v in vs))
        r = memo.get(key)
        if r is not None:
            if r is Undef:
                raise Undef()
            return r
        try:
            try:
                r = self.ev_(p, env)
            except Undef:
                q = Structure._joint.get(p)
                if q is None:
                    q = Structure._joint[p] = joint(p) or ()
                if not q:
                    raise
                r = self.ev_(q[0], env) + sum(self.sum(b, y, env) for b, y in q[1])
        except Undef:
            memo[key] = Undef
            raise
        memo[key] = r
        return r

    _order = {}
    _joint = {}

    def order(self, m):
        r = Structure._order.get(m)
        if r is None:
            r = sorted(m, key=lambda t: (not t[0].boolean, t[0].weight))
            Structure._order[m] = r
        return r

    def ev_(self, p, env):
        self.steps -= 1
        if self.steps < 0:
            raise Opaque("step budget")
        tot = 0
        open_ = None
        for m, c in p.terms.items():
            v = coef(c)
            pend = None
            unk = ()
            for a, e in self.order(m):
                try:
                    x = self.atom(a, env)
                    if e != 1:
                        x = self.pw(x, e)
                except Undef:
                    if a.boolean:
                        # a truth value that is not defined: carried along, it may cancel (B - B*A with A true)
                        unk += (a.digest,)
                    else:
                        pend = True
                    continue
                if isinstance(x, tuple):
                    if len(m) == 1 and len(p.terms) == 1 and c == 1:
                        return x
                    x = Decimal(rnd("tup", canon(x)))
                v = v * x
                if x == 0 and a.boolean:
                    pend = None
                    unk = ()
                    break
            if pend:
                raise Undef()
            if unk and v != 0:
                if open_ is None:
                    open_ = {}
                k = tuple(sorted(unk))
                open_[k] = open_.get(k, 0) + v
                continue
            tot = tot + v
        if open_ is not None and any(abs(x) > DTOL for x in open_.values()):
            raise Undef()
        if tot.__class__ is Decimal and abs(tot) > BIG:
            raise Undef()
        return tot

    def pw(self, x, e):
        if isinstance(x, tuple):
            raise Undef()
        if e.denominator == 1:
            k = int(e)
            if k < 0:
                if abs(x) < DTOL:
                    raise Undef()
                return Decimal(x) ** k
            return x ** k
        if x < -TOL:
            raise Undef()
        if x < DTOL * 1000:
            if e < 0:
                raise Undef()
            return 0
        x = Decimal(x)
        if e.denominator == 2:
            r = x.sqrt()
            return r ** e.numerator if e.numerator != 1 else r
        return x ** (Decimal(e.numerator) / Decimal(e.denominator))

    def ix(self, x):
        return x

    def atom(self, a, env):
        k, d = a.kind, a.data
        if k == "idx":
            return env[d[0]]
        if k == "sz":
            return self.size(d[0])
        if k == "c":
            f = self.tables.get(d[0])
            if f is not None:
                return dec(f(self))
            if d[0] == "pi":
                return PI
            if d[0] in ("1/0", "inf"):
                raise Undef()
            return self.hashval(a, ("c", d[0]))
        if k == "num":
            return d[0]
        if k == "s":
            return 100000 + int(rnd("str", d[0]) * 1e9)
        if k == "in":
            if a.opaque:
                raise Opaque(d[0])
            args = self.args(a, d[1:], env)
            key = (a.data[0], args)
            r = self.tab.get(key)
            if r is None:
                r = self.tab[key] = self.table(a, args)
            return r
        if k == "let":
            fv, b = T.LETS[d[0]]
            return self.ev(b, dict(zip(fv, self.args(a, d[1:], env))))
        if k == "mu":
            return self.mu(a, self.args(a, d[2:], env))
        if k == "opq":
            raise Opaque(d[0])
        if k == "pow":
            return self.ev(d[0], env)
        if k == "fn":
            return self.fn(a, [self.ev(x, env) for x in d[1:]])
        if k == "abs":
            return abs(self.ev(d[0], env))
        if k == "max":
            return max(self.ev(d[0], env), self.ev(d[1], env))
        if k in ("gt0", "ge0", "eq0"):
            x = self.ev(d[0], env)
            if isinstance(x, tuple):
                x = Decimal(rnd("tup", canon(x)))
            if k == "gt0":
                r = 1 if x > TOL else 0
            elif k == "ge0":
                r = 1 if x >= -TOL else 0
            else:
                r = 1 if abs(x) <= TOL else 0
            self.seen_bool[a.digest] = self.seen_bool.get(a.digest, 0) | (1 << r)
            return r
        if k == "mod":
            x, y = self.ev(d[0], env), self.ev(d[1], env)
            if y == 0:
                raise Undef()
            return self.nrm(x) % self.nrm(y)
        if k == "fdiv":
            x, y = self.ev(d[0], env), self.ev(d[1], env)
            if y == 0:
                raise Undef()
            return self.nrm(x) // self.nrm(y)
        if k == "sum":
            bvs, body = d
            vs = Structure._afree.get(a)
            if vs is None:
                fr = set(body.free)
                for v in bvs:
                    fr |= set(v.size.free)
                vs = Structure._afree[a] = tuple(sorted(fr - set(bvs), key=lambda v: v.digest))
            memo = self.cur_memo(body)
            key = (a, tuple([env[v] for v in vs]))
            r = memo.get(key)
            if r is None:
                r = memo[key] = self.sum(bvs, body, env)
            return r
        if k == "red":
            return self.red(a, env)
        if k == "tup":
            return tuple(self.ev(x, env) for x in d)
        raise Opaque(k)

    _afree = {}
    _plan = {}

    def sum(self, bvs, body, env):
        if len(bvs) >= 2:
            pl = Structure._plan.get((bvs, body))
            if pl is None:
                pl = Structure._plan[(bvs, body)] = self.plan(bvs, body)
            if pl:
                try:
                    rng = {}
                    for v in bvs:
                        n = self.nrm(self.ev(v.size, env))
                        if not isinstance(n, int):
                            raise Undef()
                        if n > 400:
                            raise Opaque("range")
                        rng[v] = n
                    memo = {}
                    env = dict(env)
                    tot = 0
                    for c, fs, used in pl:
                        x = coef(c)
                        for v in bvs:
                            if v not in used:
                                x = x * rng[v]
                        if x != 0:
                            tot = tot + x * self.elim(fs, env, rng, memo)
                    return tot
                except Undef:
                    pass
        tot = 0
        for env2 in self.points(bvs, env):
            tot = tot + self.ev(body, env2)
        return tot

    def plan(self, bvs, body):
        """monomials as lists of (atom, exponent, bound variables), if sizes do not depend on bound variables"""
        b = set(bvs)
        if any(b & set(v.size.free) for v in bvs):
            return ()
        out = []
        for m, c in body.terms.items():
            fs = []
            used = set()
            for a, e in self.order(m):
                vs = frozenset(b & set(self.afree(a)))
                used |= vs
                fs.append((a, e, vs))
            out.append((c, tuple(fs), used))
        return tuple(out)

    def elim(self, fs, env, rng, memo):
        """sum over all bound variables of the product of the factors, by conditioning and decomposition"""
        val = 1
        rest = []
        for f in fs:
            if f[2]:
                rest.append(f)
                continue
            x = self.atom(f[0], env)
            if f[1] != 1:
                x = self.pw(x, f[1])
            if isinstance(x, tuple):
                raise Undef()
            if x == 0 and f[0].boolean:
                return 0
            val = val * x
        if not rest:
            return val
        # connected components
        comps = []
        for f in rest:
            vs, fl = set(f[2]), [f]
            keep = []
            for cv, cf in comps:
                if cv & vs:
                    vs |= cv
                    fl = cf + fl
                else:
                    keep.append((cv, cf))
            keep.append((vs, fl))
            comps = keep
        for vs, fl in comps:
            key = tuple([(f[0], f[1], f[2], tuple([env[v] for v in self.afree(f[0]) if v not in f[2]])) for f in fl])
            r = memo.get(key)
            if r is None:
                # condition on the variable that occurs in most factors
                best = max(vs, key=lambda v: (sum(1 for f in fl if v in f[2]), -rng[v], v.digest))
                sub = tuple([(f[0], f[1], f[2] - {best}) for f in fl])
                r = 0
                old = env.get(best, self)
                for i in range(rng[best]):
                    env[best] = i
                    r = r + self.elim(sub, env, rng, memo)
                if old is self:
                    del env[best]
                else:
                    env[best] = old
                memo[key] = r
            val = val * r
        return val

    _atomfree = {}

    def afree(self, a):
        r = Structure._atomfree.get(a)
        if r is None:
            r = Structure._atomfree[a] = tuple(sorted(a.free, key=lambda v: v.digest))
        return r

    _argv = {}

    def args(self, a, xs, env):
        """values of index-like arguments; plain index variables are looked up directly"""
        r = Structure._argv.get(a)
        if r is None:
            r = []
            for x in xs:
                m = x.mono()
                if m and m[0] == 1 and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == "idx":
                    r.append((m[1][0][0].data[0], None))
                else:
                    r.append((None, x))
            Structure._argv[a] = r
        return tuple([env[v] if x is None else self.nrm(self.ev(x, env)) for v, x in r])

    def nrm(self, x):
        if x.__class__ is Decimal:
            r = x.to_integral_value()
            if abs(x - r) < TOL:
                return int(r)
        return x

    def points(self, bvs, env):
        if not bvs:
            yield env
            return
        v = bvs[0]
        n = self.nrm(self.ev(v.size, env))
        if not isinstance(n, int):
            raise Undef()
        if n > 400:
            raise Opaque("range")
        env = dict(env)
        for i in range(n):
            env[v] = i
            if len(bvs) == 1:
                yield env
            else:
                yield from self.points(bvs[1:], env)

    def mu(self, a, args):
        lid, key = a.data[0], a.data[1]
        if self.mufun is not None:
            r = self.mufun(self, a, lid, key, args)
            if r is not None:
                return r
        L = self.loops.get(lid)
        if L is None:
            raise Opaque("mu")
        f = L.fun.get(key)
        if f is None or f[1] is None or f[2] is None:
            raise Opaque("mu " + key)
        t = self.t.get(lid)
        if t is None:
            t = self.iterations(lid, L)
            self.t[lid] = t
            try:
                return self.mu(a, args)
            finally:
                del self.t[lid]
        env = dict(zip(f[0], args))
        if t <= 0:
            return self.ev(f[1], env)
        self.t[lid] = t - 1
        try:
            return self.ev(f[2], env)
        finally:
            self.t[lid] = t

    def iterations(self, lid, L):
        """index of the iteration in which the loop is left, from its exit guards"""
        if self.default_iter is not None:
            return self.default_iter
        key = (lid, tuple(sorted(self.t.items())))
        r = self.iter_memo.get(key)
        if r is None:
            r = -1
            for t in range(self.max_iter):
                self.t[lid] = t
                try:
                    for kind, g in L.exits:
                        try:
                            if self.ev(g) != 0:
                                r = t
                                break
                        except Undef:
                            pass
                        except KeyError:
                            raise Opaque("loop inside a symbolic loop")
                finally:
                    del self.t[lid]
                if r >= 0:
                    break
            self.iter_memo[key] = r
        if r < 0:
            raise Opaque("loop not left within %d iterations" % self.max_iter)
        return r

    def fn(self, a, xs):
        n = a.data[0]
        x = xs[0]
        try:
            if n == "exp":
                if abs(x) > 300:
                    if x < 0:
                        return 0
                    raise Undef()
                return Decimal(x).exp()
            if n == "log":
                if abs(x) < DTOL:
                    raise Undef()
                return Decimal(abs(x)).ln()
            if n in ("sin", "cos", "tan", "tanh", "erf", "sinh", "cosh", "atan", "asin", "acos", "gamma", "lgamma"):
                return Decimal(getattr(math, n)(float(x)))
            if n == "normppf":
                return Decimal(statistics.NormalDist().inv_cdf(float(x)))
            if n == "normcdf":
                return Decimal(0.5 * math.erfc(-float(x) / math.sqrt(2)))
            if n == "powc":
                v = float(xs[0]) ** float(xs[1])
                if isinstance(v, complex):
                    raise Undef()
                return Decimal(v)
            if n in ("floor", "ceil"):
                return int(getattr(math, n)(x + (TOL if n == "floor" else -TOL)))
            if n == "round":
                return int(round(x))
        except (ValueError, OverflowError, ZeroDivisionError, decimal.DecimalException, statistics.StatisticsError):
            raise Undef()
        return self.hashval(a, ("fn", n) + tuple(canon(v) for v in xs))

    def red(self, a, env):
        d = a.data
        name, bvs, args = d[0], d[1], d[2:]
        if name in ("rmax", "rmin"):
            vals = []
            for e2 in self.points(bvs, env):
                if len(args) < 2 or self.ev(args[1], e2) != 0:
                    vals.append(self.ev(args[0], e2))
            if not vals:
                raise Undef()
            return max(vals) if name == "rmax" else min(vals)
        if name == "nth":
            t = self.nrm(self.ev(args[1], env)) if not (args[1].free & set(bvs)) else None
            k = 0
            for e2 in self.points(bvs, env):
                if self.ev(args[0], e2) != 0:
                    if k == t:
                        return e2[bvs[0]]
                    k += 1
            raise Undef()
        if name == "argsort":
            t = self.nrm(self.ev(args[2], env))
            xs = [(self.ev(args[0], e2), e2[bvs[0]]) for e2 in self.points(bvs, env) if self.ev(args[1], e2) != 0]
            rv = self.ev(args[3], env) != 0
            xs = sorted(xs, key=lambda p: p[0], reverse=rv)
            if not (isinstance(t, int) and 0 <= t < len(xs)):
                raise Undef()
            return xs[t][1]
        if name in ("ndistinct", "sorted", "usorted", "setelem", "median", "kurt", "rprod", "pctl", "join"):
            vals = [self.ev(args[0], e2) for e2 in self.points(bvs, env) if self.ev(args[1], e2) != 0]
            if name == "rprod":
                p = 1
                for v in vals:
                    p *= v
                return p
            if name == "kurt":
                if not vals:
                    raise Undef()
                m = Decimal(sum(vals)) / len(vals)
                m2 = sum((v - m) ** 2 for v in vals) / len(vals)
                if m2 < TOL:
                    raise Undef()
                return sum((v - m) ** 4 for v in vals) / len(vals) / m2 ** 2
            if name == "median":
                if not vals:
                    raise Undef()
                vals.sort()
                n = len(vals)
                return Decimal(vals[(n - 1) // 2] + vals[n // 2]) / 2
            if name == "join":
                return self.hashval(a, ("join", tuple(canon(v) for v in vals), canon(self.ev(args[2], env))))
            if name == "pctl":
                if not vals:
                    raise Undef()
                vals.sort()
                q = Decimal(self.ev(args[2], env)) / 100 * (len(vals) - 1)
                lo = max(0, min(len(vals) - 1, int(q + TOL)))
                hi = min(lo + 1, len(vals) - 1)
                return vals[lo] + (vals[hi] - vals[lo]) * (q - lo)
            if name == "sorted":
                vals.sort(key=self.skey)
            else:
                u = {}
                for v in vals:
                    u.setdefault(canon(v), v)
                if name == "ndistinct":
                    return len(u)
                if name == "usorted":
                    vals = sorted(u.values(), key=self.skey)
                else:
                    vals = [u[k] for k in sorted(u, key=lambda k: rnd(self.seed, "set" + self.world, k))]
            k = self.nrm(self.ev(args[2], env))
            if not isinstance(k, int) or not 0 <= k < len(vals):
                raise Undef()
            return vals[k]
        if name in ("pearson", "spearman", "kendall", "kendallc", "pearson_p", "spearman_p", "kendall_p"):
            xs, ys = [], []
            for e2 in self.points(bvs, env):
                if self.ev(args[2], e2) != 0:
                    xs.append(self.ev(args[0], e2))
                    ys.append(self.ev(args[1], e2))
            if len(xs) < 2:
                raise Undef()
            if name.startswith("spearman"):
                xs, ys = ranks(xs), ranks(ys)
            if name.startswith("kendall"):
                s = n1 = n2 = 0
                for i in range(len(xs)):
                    for j in range(i):
                        sx = (xs[i] - xs[j] > TOL) - (xs[i] - xs[j] < -TOL)
                        sy = (ys[i] - ys[j] > TOL) - (ys[i] - ys[j] < -TOL)
                        s += sx * sy
                        n1 += sx * sx
                        n2 += sy * sy
                if not n1 * n2:
                    raise Undef()
                if name == "kendallc":
                    m = min(len(set(map(canon, xs))), len(set(map(canon, ys))))
                    r = Decimal(2 * s * m) / Decimal(len(xs) ** 2 * (m - 1))
                else:
                    r = s / Decimal(n1 * n2).sqrt()
            else:
                mx, my = Decimal(sum(xs)) / len(xs), Decimal(sum(ys)) / len(ys)
                sxx = sum((x - mx) ** 2 for x in xs)
                syy = sum((y - my) ** 2 for y in ys)
                if sxx < TOL or syy < TOL:
                    raise Undef()
                r = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / (sxx * syy).sqrt()
            if name.endswith("_p"):
                return dec(rnd("pval", name, canon(r), len(xs)))
            return r
        if name in ("pinv", "inv"):
            M = self.matrix(bvs, args[0], env)
            P = pinv(M)
            i, j = self.nrm(self.ev(args[1], env)), self.nrm(self.ev(args[2], env))
            return P[i][j]
        if name == "lstsq":
            M = self.matrix(bvs, args[0], env)
            y = [Decimal(self.ev(args[1], {**env, bvs[0]: i})) for i in range(len(M))]
            i = self.nrm(self.ev(args[2], env))
            if not M or not 0 <= i < len(M[0]):
                raise Undef()
            P = pinv(M)
            return sum(p * q for p, q in zip(P[i], y))
        # uninterpreted ordered reduction
        bound = set(bvs)
        rows = []
        for e2 in self.points(bvs, env):
            rows.append(tuple(canon(self.ev(x, e2)) for x in args if x.free & bound))
        rest = tuple(canon(self.ev(x, env)) for x in args if not (x.free & bound))
        if name in T.SYMMETRIC:
            rows.sort()
        return self.hashval(a, ("red", name, tuple(rows), rest))

    def skey(self, v):
        return v if not isinstance(v, tuple) else v

    def matrix(self, bvs, body, env):
        n = self.nrm(self.ev(bvs[0].size, env))
        m = self.nrm(self.ev(bvs[1].size, env))
        key = ("matrix", body, tuple(env.get(v) for v in sorted(body.free - set(bvs), key=lambda v: v.digest)))
        r = self.memo.get(key)
        if r is None:
            r = [[Decimal(self.ev(body, {**env, bvs[0]: i, bvs[1]: j})) for j in range(m)] for i in range(n)]
            self.memo[key] = r
        return r


def chi2ppf(q, k):
    """Wilson-Hilferty approximation"""
    if not 0 < q < 1 or k <= 0:
        raise Undef()
    z = statistics.NormalDist().inv_cdf(float(q))
    k = float(k)
    return Decimal(k * max(1e-3, 1 - 2 / (9.0 * k) + z * math.sqrt(2 / (9.0 * k))) ** 3)


def joint(p):
    """p with sums over the same range put under one sum, so that what is undefined in each may cancel in all"""
    groups, rest = {}, T.ZERO
    for m, c in p.terms.items():
        at = next((a for a, e in m if a.kind == "sum" and e == 1), None)
        t = T.mk_poly({tuple((a, e) for a, e in m if a is not at): c})
        if at is None:
            rest = rest + t
        else:
            groups.setdefault(at.data[0], []).append((t, at))
    if not any(len(g) > 1 for g in groups.values()):
        return None
    out = []
    for b, g in groups.items():
        y = T.ZERO
        for t, a in g:
            y = y + T.mul(t, a.data[1])
        out.append((b, y))
    return rest, out


def ranks(xs):
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    r = [0] * len(xs)
    i = 0
    while i < len(o):
        j = i
        while j + 1 < len(o) and xs[o[j + 1]] - xs[o[i]] <= TOL:
            j += 1
        for k in range(i, j + 1):
            r[o[k]] = Decimal(i + j) / 2
        i = j + 1
    return r


_pinv_memo = {}


def pinv(A):
    key = tuple(tuple(round(x, 20) for x in r) for r in A)
    if key in _pinv_memo:
        return _pinv_memo[key]
    n, m = len(A), len(A[0]) if A else 0
    # rank factorisation A = B C by reduced row echelon form
    Rr = [list(r) for r in A]
    piv = []
    row = 0
    for col in range(m):
        p = max(range(row, n), key=lambda i: abs(Rr[i][col]), default=None)
        if p is None or abs(Rr[p][col]) < TOL:
            continue
        Rr[row], Rr[p] = Rr[p], Rr[row]
        x = Rr[row][col]
        Rr[row] = [v / x for v in Rr[row]]
        for i in range(n):
            if i != row and Rr[i][col]:
                f = Rr[i][col]
                Rr[i] = [a - f * b for a, b in zip(Rr[i], Rr[row])]
        piv.append(col)
        row += 1
        if row == n:
            break
    if not piv:
        r = [[0] * n for _ in range(m)]
    else:
        C = [Rr[i] for i in range(len(piv))]
        B = [[A[i][c] for c in piv] for i in range(n)]
        Ct, Bt = tr(C), tr(B)
        r = mm(mm(Ct, solve_inv(mm(C, Ct))), mm(solve_inv(mm(Bt, B)), Bt))
    _pinv_memo[key] = r
    return r


def tr(A):
    return [list(x) for x in zip(*A)]


def mm(A, B):
    Bt = tr(B)
    return [[sum(a * b for a, b in zip(r, c)) for c in Bt] for r in A]


def solve_inv(A):
    n = len(A)
    M = [list(A[i]) + [Decimal(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(M[i][c]))
        if abs(M[p][c]) < DTOL:
            raise Undef()
        M[c], M[p] = M[p], M[c]
        x = M[c][c]
        M[c] = [v / x for v in M[c]]
        for i in range(n):
            if i != c and M[i][c]:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[c])]
    return [r[n:] for r in M]
