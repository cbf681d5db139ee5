"""Hash-consed value-number terms.

A Poly is a canonical sum of monomials over Atoms with rational exponents.
Index variables (Var) range over 0..size-1 where the size is itself a Poly
over size symbols, so a term speaks about every size at once.  Linear sums
over index variables are kept flattened and alpha-canonical, booleans are
0/1-valued multilinear polynomials.  Nothing here executes repository code.
"""
import hashlib
import itertools
from fractions import Fraction

MAX_TERMS = 48           # products larger than this stay factored
MAX_WEIGHT = 30          # heavier atoms are named by a definition ("let")


def _dig(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


class Var:
    __slots__ = ("name", "size", "level", "digest", "dep")
    _n = itertools.count()
    _pool = {}

    def __init__(self, hint, size, level=None, dep=None):
        self.size = size if isinstance(size, Poly) else const(size)
        self.level = level
        self.name = "%s#%d" % (hint, next(Var._n)) if level is None else hint
        self.digest = _dig("v", self.name, self.size.digest if level is not None else "")
        self.dep = dep

    @staticmethod
    def bound(level, size, k=0):
        key = (level, size.digest, k)
        v = Var._pool.get(key)
        if v is None:
            v = Var("b%d_%d" % (level, k), size, level=level)
            v.digest = _dig("bv", level, k, size.digest)
            Var._pool[key] = v
        return v

    def __repr__(self):
        return self.name.split("#")[0] if self.level is None else "?" + self.name


class Atom:
    __slots__ = ("kind", "data", "digest", "free", "boolean", "nonneg", "pos", "level", "opaque", "integer", "weight", "hasmu")
    _tab = {}

    def __repr__(self):
        return atom_str(self)


def _args_of(data):
    out = []
    for d in data:
        if isinstance(d, Poly):
            out.append(d)
        elif isinstance(d, tuple):
            out.extend(_args_of(d))
    return out


def mk_atom(kind, data, boolean=False, nonneg=False, pos=False, bound=(), opaque=False, integer=False):
    parts = [kind]

    def enc(d):
        if isinstance(d, Poly):
            return "P" + d.digest
        if isinstance(d, Var):
            return "V" + d.digest
        if isinstance(d, tuple):
            return "(" + ",".join(enc(x) for x in d) + ")"
        return repr(d)
    dg = _dig(kind, enc(tuple(data)))
    a = Atom._tab.get(dg)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.data = tuple(data)
    a.digest = dg
    fr = set()
    lvl = 0
    op = opaque
    for p in _args_of(a.data):
        fr |= p.free
        lvl = max(lvl, p.level)
        op = op or p.opaque

    def vs(d):
        for x in d:
            if isinstance(x, Var):
                yield x
            elif isinstance(x, tuple):
                yield from vs(x)
    for v in vs(a.data):
        if v not in bound:
            fr.add(v)
        if v.level is not None:
            lvl = max(lvl, v.level)
        op = op or (v.size.opaque if v.size is not None else False)
    fr -= set(bound)
    for v in bound:
        fr |= v.size.free - set(bound)
    a.free = frozenset(fr)
    a.level = lvl
    a.boolean = boolean
    a.nonneg = nonneg or boolean or pos
    a.pos = pos
    a.opaque = op
    a.integer = integer or boolean
    a.weight = 1 + sum(p.weight for p in _args_of(a.data))
    a.hasmu = (kind == "mu" and data[0] not in FREE_MU) or any(p.hasmu for p in _args_of(a.data))
    Atom._tab[dg] = a
    return a


class Poly:
    __slots__ = ("terms", "digest", "free", "level", "opaque", "_key", "weight", "hasmu")
    _tab = {}

    def __repr__(self):
        return poly_str(self)

    # arithmetic sugar
    def __add__(self, o):
        return add(self, lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), -1))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, -1))

    def __pow__(self, e):
        return power(self, e)

    def __neg__(self):
        return neg(self)

    @property
    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    @property
    def cval(self):
        return self.terms.get((), Fraction(0))

    def atoms(self):
        for m in self.terms:
            for a, e in m:
                yield a

    def mono(self):
        """(coef, mono) when the poly has exactly one term"""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            return c, m
        return None


def mk_poly(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    items = sorted(((tuple((a.digest, e) for a, e in m), m, c) for m, c in terms.items()), key=lambda t: t[0])
    dg = _dig("p", ";".join("%s:%s" % (c, ",".join("%s^%s" % (d, e) for d, e in k)) for k, m, c in items))
    p = Poly._tab.get(dg)
    if p is not None:
        return p
    p = Poly()
    p.terms = {m: c for k, m, c in items}
    p.digest = dg
    fr = set()
    lvl = 0
    op = False
    for m in p.terms:
        for a, e in m:
            fr |= a.free
            lvl = max(lvl, a.level)
            op = op or a.opaque
    p.free = frozenset(fr)
    p.level = lvl
    p.opaque = op
    p._key = None
    p.weight = sum(1 + sum(a.weight for a, e in m) for m in p.terms)
    p.hasmu = any(a.hasmu for m in p.terms for a, e in m)
    Poly._tab[dg] = p
    return p


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(x)


def const(c):
    c = frac(c)
    return mk_poly({(): c})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Var):
        return idx(x)
    return const(x)


ZERO = const(0)
ONE = const(1)


def from_atom(a, e=1):
    if a.weight > MAX_WEIGHT and e == 1 and not _no_abbr[0] and a.kind in _ABBR_KINDS and not a.hasmu:
        return abbrev(mk_poly({((a, Fraction(1)),): Fraction(1)}))
    return mk_poly({((a, Fraction(e)),): Fraction(1)})


_ABBR_KINDS = {"sum", "red", "pow", "fn", "abs", "max", "gt0", "ge0", "eq0", "mod", "fdiv", "in", "mu"}
_no_abbr = [0]
FREE_MU = set()          # loop ids whose placeholders are never closed (while loops)
LETS = {}                # let id -> (formals, body)
_abbr_memo = {}


def abbrev(p):
    """name the poly p: a 'let' atom over p's free index variables.  The definition is
    canonical up to the naming of those variables, so equal values get equal names."""
    r = _abbr_memo.get(p.digest)
    if r is not None:
        return r
    fr = set(p.free)
    while True:
        more = set()
        for v in fr:
            more |= v.size.free - fr
        if not more:
            break
        fr |= more
    vs = sorted(fr, key=lambda v: (v.size.digest, v.digest))
    dep = any(v.size.free & fr for v in vs)
    best = None
    if dep or len(vs) > 3:
        perms = [tuple(_topo(vs))]
    else:
        perms = [q for q in itertools.permutations(vs) if [v.size.digest for v in q] == [v.size.digest for v in vs]]
    _no_abbr[0] += 1
    try:
        for perm in perms:
            mp, fv = {}, []
            for k, v in enumerate(perm):
                w = Var.bound(0, subst(v.size, mp), k)
                fv.append(w)
                mp[v] = from_atom(mk_atom("idx", (w,), nonneg=True, integer=True))
            b = subst(p, mp)
            if best is None or b.digest < best[0].digest:
                best = (b, tuple(fv), perm)
    finally:
        _no_abbr[0] -= 1
    b, fv, perm = best
    lid = _dig("let", b.digest, ",".join(v.digest for v in fv))
    if lid not in LETS:
        LETS[lid] = (fv, b)
    r = mk_let(lid, [idx(v) for v in perm])
    _abbr_memo[p.digest] = r
    return r


LET_BOOL = set()


def abbrev_bool(p):
    """name a multi-term 0/1-valued poly so that it counts as one boolean atom"""
    if len(p.terms) < 2 or p.hasmu:
        return p
    if p.opaque:
        return p
    r = abbrev(p)
    a = r.mono()[1][0][0]
    if not a.boolean:
        LET_BOOL.add(a.data[0])
        _abbr_memo.pop(p.digest, None)
        Atom._tab.pop(a.digest, None)
        a.boolean = a.nonneg = a.integer = True
        Atom._tab[a.digest] = a
        _abbr_memo[p.digest] = r
    return r


def mk_let(lid, args):
    fv, b = LETS[lid]
    bl = nn = ps = it = False
    mm = b.mono()
    if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][1] == 1:
        a = mm[1][0][0]
        bl, nn, ps, it = a.boolean, a.nonneg, a.pos, a.integer
    else:
        nn, ps, it = is_nonneg(b), is_pos(b), integral(b)
        bl = lid in LET_BOOL
    return mk_poly({((mk_atom("let", (lid,) + tuple(args), boolean=bl, nonneg=nn, pos=ps, integer=it,
                               opaque=b.opaque), Fraction(1)),): Fraction(1)})


def let_open(a):
    fv, b = LETS[a.data[0]]
    return subst(b, dict(zip(fv, a.data[1:])))


def idx(v):
    if v.size.is_const and v.size.cval == 1:
        return ZERO
    return from_atom(mk_atom("idx", (v,), nonneg=True, integer=True))


def size(name):
    return from_atom(mk_atom("sz", (name,), pos=True, integer=True))


def sym(name, nonneg=False, pos=False, boolean=False, integer=False):
    return from_atom(mk_atom("c", (name,), nonneg=nonneg, pos=pos, boolean=boolean, integer=integer))


REWRITE = {}


def app(name, *args, boolean=False, nonneg=False, pos=False, opaque=False, integer=False):
    rw = REWRITE.get(name)
    if rw is not None:
        r = rw(*[lift(a) for a in args])
        if r is not None:
            return r
    return from_atom(mk_atom("in", (name,) + tuple(lift(a) for a in args), boolean=boolean,
                             nonneg=nonneg, pos=pos, opaque=opaque, integer=integer))


def strc(s):
    return from_atom(mk_atom("s", (s,)))


_op_n = itertools.count()


def opaque(tag, *args):
    return from_atom(mk_atom("opq", (tag, next(_op_n)) + tuple(lift(a) for a in args), opaque=True))


# ---------------------------------------------------------------- arithmetic

def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    t = dict(a.terms)
    for m, c in b.terms.items():
        t[m] = t.get(m, 0) + c
    return mk_poly(t)


def add_all(ps):
    t = {}
    for p in ps:
        for m, c in p.terms.items():
            t[m] = t.get(m, 0) + c
    return mk_poly(t)


def neg(a):
    return mk_poly({m: -c for m, c in a.terms.items()})


def scale(a, c):
    if c == 1:
        return a
    return mk_poly({m: k * c for m, k in a.terms.items()})


def mono_mul(m1, m2):
    """product of monomials -> (coef, mono) ; may need rebuild for merged atoms"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


def mono_norm(d):
    coef = Fraction(1)
    out = []
    extra = None
    # merge exponential functions exp(a)*exp(b)
    exps = [a for a, e in d.items() if a.kind == "fn" and a.data[0] == "exp" and e != 0]
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        tot = ZERO
        for a in exps:
            tot = tot + scale(a.data[1], d[a])
            del d[a]
        ne = fn("exp", tot)
        mm = ne.mono()
        if mm:
            coef *= mm[0]
            for a, e in mm[1]:
                d[a] = d.get(a, 0) + e
    for a, e in d.items():
        if e == 0:
            continue
        if a.boolean and e > 0:
            e = Fraction(1)
        if a.kind == "num":
            # prime ** e : extract integer part
            k = e.numerator // e.denominator
            if k:
                coef *= Fraction(a.data[0]) ** k
                e = e - k
            if e == 0:
                continue
        if a.kind == "pow" and e > 0 and e.denominator == 1:
            base = power(a.data[0], int(e), force=True)
            mm = base.mono()
            if not (mm and mm[1] == ((a, e),)):
                extra = base if extra is None else mul(extra, base)
                continue
        out.append((a, Fraction(e)))
    out.sort(key=lambda t: t[0].digest)
    return coef, tuple(out), extra


def mul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    ca = a.mono()
    cb = b.mono()
    if ca and ca[1] == ():
        return scale(b, ca[0])
    if cb and cb[1] == ():
        return scale(a, cb[0])
    # cancellation  P * pow(P)^-k
    for (p, q, cq) in ((a, b, cb), (b, a, ca)):
        if cq and len(p.terms) > 1:
            for at, e in cq[1]:
                if at.kind == "pow" and e < 0 and e.denominator == 1:
                    r = proportional(p, at.data[0])
                    if r is not None:
                        k, m = r
                        rest = {x: y for x, y in cq[1]}
                        rest[at] = e + 1
                        if rest[at] == 0:
                            del rest[at]
                        c2, m2, ex = mono_norm(rest)
                        res = mk_poly({m2: cq[0] * c2 * k})
                        if ex is not None:
                            res = mul(res, ex)
                        return mul(res, mk_poly({m: Fraction(1)})) if m else res
    if len(a.terms) * len(b.terms) > (MAX_TERMS if not (a.hasmu or b.hasmu) else 8 * MAX_TERMS):
        # keep factored: name the bigger operand
        if len(a.terms) >= len(b.terms):
            return mul(paren(a), b)
        return mul(a, paren(b))
    t = {}
    extras = []
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            c, m, ex = mono_mul(m1, m2)
            if ex is None:
                t[m] = t.get(m, 0) + c * c1 * c2
            else:
                extras.append(mul(mk_poly({m: c * c1 * c2}), ex))
    r = mk_poly(t)
    for x in extras:
        r = add(r, x)
    return r


def paren(p):
    """p as coefficient * monomial * named primitive part"""
    c, m, q = content(p)
    r = scale(abbrev(q), c)
    return mul(r, mk_poly({m: Fraction(1)})) if m else r


def proportional(p, base):
    """p == k * m * base ?  returns (k, mono m) else None (m currently only ())"""
    if len(p.terms) != len(base.terms):
        return None
    cp, mp, np_ = content(p)
    cb, mb, nb = content(base)
    if np_ is not nb:
        return None
    d = {}
    for a, e in mp:
        d[a] = d.get(a, 0) + e
    for a, e in mb:
        d[a] = d.get(a, 0) - e
    c, m, ex = mono_norm(d)
    if ex is not None:
        return None
    return cp / cb * c, m


def content(p):
    """p = c * m * q with q primitive (positive leading coefficient, no common monomial)"""
    if p._key is not None:
        return p._key
    monos = list(p.terms)
    common = None
    for m in monos:
        d = {a: e for a, e in m}
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, Fraction(0))) if (a in d) else (e if e < 0 else None)
                      for a, e in common.items()}
            common = {a: e for a, e in common.items() if e is not None}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    # negative exponents: take min over all (absent = 0)
    allatoms = {}
    for m in monos:
        for a, e in m:
            allatoms.setdefault(a, []).append(e)
    common = {}
    for a, es in allatoms.items():
        if a.boolean:
            # boolean factors present in every monomial are idempotent; leave them
            continue
        mn = min(es)
        if len(es) < len(monos):
            mn = min(mn, Fraction(0))
        if mn != 0:
            common[a] = mn
    c0 = None
    g = None
    for c in p.terms.values():
        n = abs(c)
        g = n if g is None else Fraction(_gcd(g.numerator * n.denominator, n.numerator * g.denominator),
                                         g.denominator * n.denominator)
    if common:
        inv = {a: -e for a, e in common.items()}
        q = {}
        extra_ok = True
        for m, c in p.terms.items():
            d = {a: e for a, e in m}
            for a, e in inv.items():
                d[a] = d.get(a, 0) + e
            cc, mm, ex = mono_norm(d)
            if ex is not None:
                extra_ok = False
                break
            q[mm] = q.get(mm, 0) + c * cc
        if extra_ok:
            qp = mk_poly(q)
        else:
            qp = p
            common = {}
    else:
        qp = p
    lead = next(iter(qp.terms.values())) if qp.terms else Fraction(1)
    sgn = -1 if lead < 0 else 1
    k = g * sgn
    qp = scale(qp, 1 / k)
    cm = tuple(sorted(common.items(), key=lambda t: t[0].digest))
    p._key = (k, cm, qp)
    return p._key


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def powatom(base, e):
    """pow atom for a >=2-term base"""
    c, m, q = content(base)
    e = Fraction(e)
    if e.denominator == 1:
        at = mk_atom("pow", (q,), nonneg=is_nonneg(q), pos=is_pos(q))
        res = mk_poly({((at, e),): Fraction(1)})
        res = scale(res, c ** int(e))
        if m:
            d = {a: x * e for a, x in m}
            c2, m2, ex = mono_norm(d)
            res2 = mk_poly({m2: c2})
            if ex is not None:
                res2 = mul(res2, ex)
            res = mul(res, res2)
        return res
    # fractional: only pull out what is known nonnegative
    keep = {}
    out = {}
    for a, x in m:
        if a.nonneg or a.pos or (x.denominator == 1 and x.numerator % 2 == 0):
            out[a] = x
        else:
            keep[a] = x
    b = q if c > 0 else neg(q)
    if keep:
        c2, m2, ex = mono_norm(dict(keep))
        kp = mk_poly({m2: c2})
        b = mul(b, kp)
    at = mk_atom("pow", (b,), nonneg=True)
    res = mk_poly({((at, e),): Fraction(1)})
    res = mul(res, numpow(abs(c), e))
    for a, x in out.items():
        if a.nonneg or a.pos:
            res = mul(res, mk_poly({((a, x * e),): Fraction(1)}))
        else:
            res = mul(res, power(absv(mk_poly({((a, Fraction(1)),): Fraction(1)})), x * e))
    return res


_primes_cache = {}


def factorint(n):
    r = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            r[d] = r.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def numpow(c, e):
    c = Fraction(c)
    e = Fraction(e)
    if e.denominator == 1:
        return const(c ** int(e))
    if c == 0:
        return ZERO
    if c < 0:
        return fn("powc", const(c), const(e))
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        for p, k in factorint(n).items():
            at = mk_atom("num", (p,), pos=True)
            d[at] = d.get(at, 0) + s * k * e
    cc, m, ex = mono_norm(d)
    return mk_poly({m: cc})


def power(p, e, force=False):
    p = lift(p)
    if isinstance(e, Poly):
        if e.is_const:
            e = e.cval
        else:
            # a ** symbolic  -> exp(e*log a)
            return fn("exp", mul(e, fn("log", p)))
    e = frac(e)
    if e == 0:
        return ONE
    if e == 1 and not force:
        return p
    if p.is_const:
        if p.cval == 0:
            return ZERO if e > 0 else from_atom(mk_atom("c", ("1/0",)))
        return numpow(p.cval, e)
    mm = p.mono()
    if mm:
        c, m = mm
        if e.denominator == 1:
            d = {a: x * e for a, x in m}
            c2, m2, ex = mono_norm(d)
            r = mk_poly({m2: c2 * (c ** int(e))})
            return mul(r, ex) if ex is not None else r
        if c < 0:
            return fn("powc", p, const(e))
        res = numpow(c, e)
        for a, x in m:
            if a.nonneg or a.pos or a.kind == "pow" and a.nonneg:
                c2, m2, ex = mono_norm({a: x * e})
                r = mk_poly({m2: c2})
                if ex is not None:
                    r = mul(r, ex)
                res = mul(res, r)
            elif x.denominator == 1 and x.numerator % 2 == 0:
                res = mul(res, power(absv(from_atom(a)), x * e))
            else:
                at = a
                res = mul(res, mk_poly({((at, x * e),): Fraction(1)}))
        return res
    if e.denominator == 1 and e > 0:
        n = len(p.terms)
        if n ** int(e) <= 36 and e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = mul(r, p)
            return r
        if not p.hasmu:
            return power(paren(p), e)
        c, m, q = content(p)
        if m or c != 1:
            return mul(power(mk_poly({m: c}), e), power(q, e, force=True))
        at = mk_atom("pow", (q,), nonneg=is_nonneg(q), pos=is_pos(q))
        return mk_poly({((at, e),): Fraction(1)})
    if p.weight > MAX_WEIGHT and e.denominator == 1 and not _no_abbr[0] and not p.hasmu:
        return power(paren(p), e)
    return powatom(p, e)


# ------------------------------------------------------------------- signs

def mono_nonneg(m):
    for a, e in m:
        if a.nonneg or a.pos:
            continue
        if e.denominator == 1 and e.numerator % 2 == 0:
            continue
        if e.denominator != 1:
            continue            # real roots
        return False
    return True


def mono_pos(m):
    return all(a.pos for a, e in m)


def is_nonneg(p):
    return all(c > 0 and mono_nonneg(m) for m, c in p.terms.items())


def is_pos(p):
    return is_nonneg(p) and any(mono_pos(m) for m in p.terms) and bool(p.terms)


def lower_nonneg(p):
    """p >= 0 provable: idx atoms with negative coefficients bounded by size-1"""
    if is_nonneg(p):
        return True
    sub = {}
    for m, c in p.terms.items():
        if c < 0:
            for a, e in m:
                if a.kind == "idx" and e == 1:
                    sub[a.data[0]] = a.data[0].size - 1
    if not sub:
        # sizes >= 1
        q = p
        d = _size_shift(q)
        return d is not None and is_nonneg(d)
    q = subst(p, sub)
    if is_nonneg(q):
        return True
    d = _size_shift(q)
    return d is not None and is_nonneg(d)


def _size_shift(q):
    """substitute size = 1 + t (t>=0) in the top-level monomials to test lower bounds"""
    sz = {a for a in q.atoms() if a.kind == "sz"}
    if not sz or len(sz) > 4 or len(q.terms) > 12:
        return None
    # a negative monomial that mentions no size can only be absorbed by constants
    mp = {}
    for a in sz:
        mp[a] = add(ONE, from_atom(mk_atom("szm1", (a.data[0],), nonneg=True, integer=True)))
    parts = []
    for m, c in q.terms.items():
        res = const(c)
        keep = []
        for a, e in m:
            if a in mp and e > 0 and e.denominator == 1:
                res = mul(res, power(mp[a], e))
            else:
                keep.append((a, e))
        parts.append(mul(res, mk_poly({tuple(keep): Fraction(1)})))
    return add_all(parts)


# ---------------------------------------------------------------- booleans

def not_(b):
    return ONE - b


def and_(*bs):
    r = ONE
    for b in bs:
        r = mul(r, b)
        if r is ZERO:
            return r
    return r


def or_(*bs):
    r = ZERO
    for b in bs:
        r = r + b - mul(r, b)
    return r


def phi(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return mul(c, a) + mul(ONE - c, b)


def _orient(p):
    """primitive with positive leading coefficient; returns (sign, q)"""
    if not p.terms:
        return 1, p
    mm = p.mono()
    # strip positive content only
    g = None
    for c in p.terms.values():
        n = abs(c)
        g = n if g is None else Fraction(_gcd(g.numerator * n.denominator, n.numerator * g.denominator),
                                         g.denominator * n.denominator)
    c, m, q = content(p)
    keep = {}
    for a, e in m:
        if a.pos:
            continue
        if e.denominator == 1 and e.numerator % 2 == 0 and e < 0:
            continue
        if a.nonneg and e < 0:
            continue
        keep[a] = e
    if keep:
        c2, m2, ex = mono_norm(dict(keep))
        q = mul(q, mk_poly({m2: c2}))
        if ex is not None:
            q = mul(q, ex)
    s = 1 if c > 0 else -1
    lead = next(iter(q.terms.values()))
    if lead < 0:
        return -s, neg(q)
    return s, q


def _boolfn(p, f):
    """p over at most three boolean atoms: the exact multilinear poly of f(p)"""
    ats = []
    for m in p.terms:
        for a, e in m:
            if not a.boolean or e < 0:
                return None
            if a not in ats:
                ats.append(a)
    if not ats or len(ats) > 3:
        return None
    r = ZERO
    for bits in itertools.product((0, 1), repeat=len(ats)):
        env = dict(zip(ats, bits))
        v = Fraction(0)
        for m, c in p.terms.items():
            if all(env[a] for a, e in m):
                v += c
        if f(v):
            t = ONE
            for a, b in env.items():
                t = mul(t, from_atom(a) if b else ONE - from_atom(a))
            r = r + t
    return r


def gt0(p):
    """[p > 0]"""
    p = lift(p)
    if p.is_const:
        return ONE if p.cval > 0 else ZERO
    if len(p.terms) <= 2:
        f = _fmax(p)
        if f:
            return ONE if f > 0 else ZERO
    b = _boolfn(p, lambda v: v > 0)
    if b is not None:
        return b
    if lower_nonneg(p - 1) and integral(p):
        return ONE
    if is_pos(p):
        return ONE
    if lower_nonneg(neg(p)):
        return ZERO
    s, q = _orient(p)
    if s > 0:
        return from_atom(mk_atom("gt0", (q,), boolean=True))
    return ONE - from_atom(mk_atom("ge0", (q,), boolean=True))


def _fmax(p):
    """sign of c0 + c1*FLOAT_MAX for moderate coefficients, else 0"""
    if len(p.terms) > 2:
        return 0
    c0 = c1 = 0
    for m, c in p.terms.items():
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].data and m[0][0].data[0] == "FLOAT_MAX":
            c1 = c
        else:
            return 0
    if not c1 or abs(c0) > 10 ** 100 * abs(c1):
        return 0
    return 1 if c1 > 0 else -1


def ge0(p):
    p = lift(p)
    if p.is_const:
        return ONE if p.cval >= 0 else ZERO
    if len(p.terms) <= 2:
        f = _fmax(p)
        if f:
            return ONE if f > 0 else ZERO
    b = _boolfn(p, lambda v: v >= 0)
    if b is not None:
        return b
    if lower_nonneg(p):
        return ONE
    if is_pos(neg(p)) or (integral(p) and lower_nonneg(neg(p) - 1)):
        return ZERO
    s, q = _orient(p)
    if s > 0:
        return from_atom(mk_atom("ge0", (q,), boolean=True))
    return ONE - from_atom(mk_atom("gt0", (q,), boolean=True))


def eq0(p):
    p = lift(p)
    if p.is_const:
        return ONE if p.cval == 0 else ZERO
    b = _boolfn(p, lambda v: v == 0)
    if b is not None:
        return b
    if is_pos(p) or is_pos(neg(p)):
        return ZERO
    if integral(p) and (lower_nonneg(p - 1) or lower_nonneg(neg(p) - 1)):
        return ZERO
    ats = list(p.atoms())
    if all(a.kind == "s" for a in ats):
        return ZERO
    mm = p.mono()
    if mm and len(mm[1]) == 1 and mm[1][0][0].boolean:
        return ONE - from_atom(mm[1][0][0])
    if len(p.terms) == 2 and integral(p):
        # boolean - 1 == 0
        d = dict(p.terms)
        c0 = d.pop((), None)
        if c0 is not None:
            (m, c), = d.items()
            if len(m) == 1 and m[0][0].boolean:
                if c0 / c == -1:
                    return from_atom(m[0][0])
                return ZERO
    s, q = _orient(p)
    return from_atom(mk_atom("eq0", (q,), boolean=True))


def integral(p):
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.integer or e.denominator != 1 or e < 0:
                return False
    return True


def lt(a, b):
    return gt0(lift(b) - lift(a))


def le(a, b):
    return ge0(lift(b) - lift(a))


def eq(a, b):
    return eq0(lift(a) - lift(b))


# ------------------------------------------------------------------ functions

def fn(name, *args, **kw):
    args = [lift(a) for a in args]
    x = args[0] if args else None
    if name == "exp":
        if x is ZERO:
            return ONE
        mm = x.mono()
        if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][0].kind == "fn" and mm[1][0][0].data[0] == "log" and mm[1][0][1] == 1:
            return mm[1][0][0].data[1]
        # pull log atoms out of sums: exp(k*log a + t) = a^k exp(t)
        fac = ONE
        rest = {}
        for m, c in x.terms.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].data[0] == "log":
                fac = mul(fac, power(m[0][0].data[1], c))
            else:
                rest[m] = c
        if fac is not ONE:
            return mul(fac, fn("exp", mk_poly(rest)))
        if x.weight > MAX_WEIGHT and not x.hasmu and not _no_abbr[0]:
            x = paren(x)
        return mk_poly({((mk_atom("fn", ("exp", x), pos=True), Fraction(1)),): Fraction(1)})
    if name == "log":
        # real logarithm of a positive quantity: log x == log|x|, so factors split freely
        if x is ONE or (x.is_const and abs(x.cval) == 1):
            return ZERO
        if x is ZERO:
            return from_atom(mk_atom("fn", ("log", x)))
        c, m, q = content(x) if x.mono() is None else (x.mono()[0], x.mono()[1], ONE)
        out = []
        for n, sg in ((abs(c).numerator, 1), (abs(c).denominator, -1)):
            if n != 1:
                for p_, k in factorint(n).items():
                    out.append(scale(from_atom(mk_atom("fn", ("log", const(p_)))), Fraction(sg * k)))
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "exp":
                out.append(scale(a.data[1], e))
            elif a.kind == "num":
                out.append(scale(from_atom(mk_atom("fn", ("log", const(a.data[0])))), e))
            elif a.kind == "pow":
                out.append(scale(fn("log", a.data[0]), e))
            else:
                out.append(scale(from_atom(mk_atom("fn", ("log", from_atom(a)))), e))
        if q is not ONE:
            out.append(from_atom(mk_atom("fn", ("log", q))))
        return add_all(out)
    if name in ("sin", "cos", "cosh", "tanh", "floor", "ceil", "round") and False:
        pass
    return from_atom(mk_atom("fn", (name,) + tuple(args), **kw))


def absv(p):
    p = lift(p)
    if p.is_const:
        return const(abs(p.cval))
    if is_nonneg(p):
        return p
    if is_nonneg(neg(p)):
        return neg(p)
    mm = p.mono()
    if mm:
        c, m = mm
        res = const(abs(c))
        for a, e in m:
            if a.nonneg or (e.denominator == 1 and e.numerator % 2 == 0):
                res = mul(res, mk_poly({((a, e),): Fraction(1)}))
            else:
                q = from_atom(a)
                at = mk_atom("abs", (q,), nonneg=True)
                res = mul(res, power(from_atom(at), e))
        return res
    c, m, q = content(p)
    r = from_atom(mk_atom("abs", (q,), nonneg=True))
    r = scale(r, abs(c))
    if m:
        r = mul(r, absv(mk_poly({m: Fraction(1)})))
    return r


def max_(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return a
    d = a - b
    if lower_nonneg(d):
        return a
    if lower_nonneg(neg(d)):
        return b
    if a.digest > b.digest:
        a, b = b, a
    nn = (a.is_const and a.cval >= 0) or (b.is_const and b.cval >= 0) or is_nonneg(a) or is_nonneg(b)
    return from_atom(mk_atom("max", (a, b), nonneg=nn))


def min_(a, b):
    return neg(max_(neg(lift(a)), neg(lift(b))))


def floordiv(a, b):
    a, b = lift(a), lift(b)
    q, r = divmod_(a, b)
    return q


def mod(a, b):
    a, b = lift(a), lift(b)
    q, r = divmod_(a, b)
    return r


def divmod_(a, b):
    if a.is_const and b.is_const and b.cval != 0:
        q = a.cval // b.cval
        return const(q), const(a.cval - q * b.cval)
    bm = b.mono()
    if bm and integral(a):
        # split a = b*q + r with 0 <= r < b
        qt, rt = {}, {}
        bd = dict(bm[1])
        for m, c in a.terms.items():
            d = dict(m)
            ok = all(d.get(x, 0) >= e for x, e in bd.items()) and (c / bm[0]).denominator == 1
            if ok and bd:
                for x, e in bd.items():
                    d[x] = d[x] - e
                k = tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda t: t[0].digest))
                qt[k] = qt.get(k, 0) + c / bm[0]
            elif ok and not bd and (c / bm[0]).denominator == 1:
                qt[m] = qt.get(m, 0) + c / bm[0]
            else:
                rt[m] = rt.get(m, 0) + c
        q, r = mk_poly(qt), mk_poly(rt)
        if r is ZERO or lower_nonneg(r) and lower_nonneg(b - 1 - r):
            return q, r
        mm = r.mono()
        if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][0].kind == "idx" and mm[1][0][0].data[0].size is b:
            return q, r
        if b is ONE:
            return a, ZERO
        r2 = from_atom(mk_atom("mod", (r, b), nonneg=True, integer=True))
        q2 = from_atom(mk_atom("fdiv", (r, b), integer=True, nonneg=is_nonneg(r) and is_nonneg(b)))
        return q + q2, r2
    it = integral(a) and integral(b)
    return (from_atom(mk_atom("fdiv", (a, b), integer=it, nonneg=is_nonneg(a) and is_nonneg(b))),
            from_atom(mk_atom("mod", (a, b), nonneg=is_nonneg(b), integer=it)))


# ------------------------------------------------------------------ summation

def ssum(vs, body, guard=None):
    """sum of body over the variables vs (list), optionally under a boolean guard"""
    if isinstance(vs, Var):
        vs = [vs]
    if guard is not None and guard is not ONE:
        body = mul(body, guard)
    for v in reversed(list(vs)):
        body = _sum1(v, body)
    return body


_sum_memo = {}


def _sum1(v, body):
    key = (v.digest, body.digest)
    r = _sum_memo.get(key)
    if r is None:
        r = _sum1x(v, body)
        _sum_memo[key] = r
    return r


def _sum1x(v, body):
    if v not in body.free:
        # sizes of inner canonical vars can't depend on v
        return mul(body, v.size)
    if any(a.kind in ("sum", "let") for a in v.size.atoms()):
        r = _find_nth(v, body)
        if r is not None:
            w, g = r
            return ssum(w, mul(_un_nth(body, v, w, g, {}), g))
    # keep big factored sums linear: expand pow^1 atoms if dependent
    parts = []
    for m, c in body.terms.items():
        parts.append(scale(_sum_mono([v], m), c))
    return add_all(parts)


class _NoNth(Exception):
    pass


def nth(v, guard, t):
    """index of the t-th element v passing guard"""
    if guard is ONE:
        return t
    return red("nth", [v], guard, t, integer=True, nonneg=True)


def _find_nth(v, body):
    """an nth atom over idx(v) whose range is exactly v's range"""
    iv = idx(v)
    for a in body.atoms():
        if v not in a.free:
            continue
        if a.kind == "red" and a.data[0] == "nth" and a.data[3] is iv:
            w = Var("s", a.data[1][0].size)
            if not a.data[1][0].size.free and not a.data[1][0].size.is_const and a.data[2].free <= {a.data[1][0]}:
                g = subst(a.data[2], {a.data[1][0]: idx(w)})
                if ssum(w, g) is v.size:
                    return w, g
            continue
        if a.kind == "let":
            fv, b = LETS[a.data[0]]
            for f, x in zip(fv, a.data[1:]):
                if x is iv:
                    r = _find_nth(f, b)
                    if r is not None:
                        return r
        for q in _args_of(a.data):
            if v in q.free:
                r = _find_nth(v, q)
                if r is not None:
                    return r
    return None


def _un_nth(p, v, w, g, memo):
    """p with the index v rewritten as the rank of w among the elements passing g"""
    if v not in p.free:
        return p
    key = (p.digest, v.digest, w.digest)
    r = memo.get(key)
    if r is not None:
        return r
    iv = idx(v)
    parts = []
    for m, c in p.terms.items():
        res = const(c)
        for a, e in m:
            if v not in a.free:
                x = from_atom(a)
            elif a.kind == "idx":
                u = Var("u", w.size)
                x = ssum(u, mul(subst(g, {w: idx(u)}), lt(u, w)))
            elif a.kind == "red" and a.data[0] == "nth" and a.data[3] is iv and \
                    subst(a.data[2], {a.data[1][0]: idx(w)}) is g:
                x = idx(w)
            elif a.kind == "let":
                fv, b = LETS[a.data[0]]
                hit = [k for k, q in enumerate(a.data[1:]) if v in q.free]
                if len(hit) == 1 and a.data[1 + hit[0]] is iv:
                    f = fv[hit[0]]
                    w0 = Var("l", w.size)
                    nb = _un_nth(b, f, w0, subst(g, {w: idx(w0)}), memo)
                    if nb.weight > 8:
                        nb = paren(nb)
                    mp = {ff: q for ff, q in zip(fv, a.data[1:]) if ff is not f}
                    mp[w0] = idx(w)
                    x = subst(nb, mp)
                else:
                    x = _un_nth(let_open(a), v, w, g, memo)
            else:
                x = rebuild_atom(a, lambda q: _un_nth(q, v, w, g, memo))
            res = mul(res, power(x, e)) if e != 1 else mul(res, x)
        parts.append(res)
    r = add_all(parts)
    memo[key] = r
    return r


def _delta(v, m):
    """find an equality atom [v == t] in monomial; return t or None"""
    for a, e in m:
        if a.kind == "eq0" and v in a.free and e > 0:
            p = a.data[0]
            c1 = None
            rest = {}
            bad = False
            for mm, c in p.terms.items():
                if len(mm) == 1 and mm[0][0].kind == "idx" and mm[0][0].data[0] is v and mm[0][1] == 1:
                    c1 = c
                else:
                    if any(v in x.free for x, _ in mm):
                        bad = True
                        break
                    rest[mm] = c
            if bad or c1 is None or abs(c1) != 1:
                continue
            t = scale(mk_poly(rest), -1 / c1)
            if not integral(t):
                continue
            return t
    return None


def _sum_mono(vs, m):
    """sum over vs of the monomial m (coefficient 1) -> Poly"""
    vs = list(vs)
    # delta elimination
    for v in vs:
        t = _delta(v, m)
        if t is not None:
            others = [w for w in vs if w is not v]
            if any(w in t.free for w in others) or True:
                body = subst(mk_poly({m: Fraction(1)}), {v: t})
                rng = and_(ge0(t), gt0(v.size - t))
                return ssum(others, mul(body, rng))
    # merge nested sums of exponent one that depend on vs
    changed = True
    fac = {a: e for a, e in m}
    while changed:
        changed = False
        for a, e in list(fac.items()):
            if a.kind == "sum" and e == 1 and (a.free & set(vs)):
                nv, nb = open_sum(a)
                del fac[a]
                vs.extend(nv)
                nm = nb.mono()
                if nm is None or nm[0] != 1:
                    c, mm, ex = mono_norm(fac)
                    body = mul(mk_poly({mm: c}), nb)
                    if ex is not None:
                        body = mul(body, ex)
                    return ssum(vs, body)
                for x, y in nm[1]:
                    fac[x] = fac.get(x, 0) + y
                c, mm, ex = mono_norm(fac)
                if ex is not None or c != 1:
                    body = mk_poly({mm: c})
                    if ex is not None:
                        body = mul(body, ex)
                    return ssum(vs, body)
                fac = {x: y for x, y in mm}
                for v in vs:
                    if _delta(v, mm) is not None:
                        return _sum_mono(vs, mm)
                changed = True
                break
    vset = set(vs)
    # a variable that is not mentioned contributes its (possibly dependent) range size
    for v in vs:
        if v.size.free & vset and not any(v in a.free for a in fac) and not any(v in w.size.free for w in vs):
            body = mul(mk_poly({tuple(sorted(fac.items(), key=lambda t: t[0].digest)): Fraction(1)}), v.size)
            return ssum([w for w in vs if w is not v], body)
    # connected components
    res = ONE
    remaining = dict(fac)

    def clos(g):
        g = set(g)
        ch = True
        while ch:
            ch = False
            for v in list(g):
                d = (v.size.free & vset) - g
                if d:
                    g |= d
                    ch = True
            for v in vset - g:
                if v.size.free & g:
                    g.add(v)
                    ch = True
        return g
    groups = []
    for a, e in list(remaining.items()):
        dep = a.free & vset
        if not dep:
            res = mul(res, mk_poly({((a, e),): Fraction(1)}))
            del remaining[a]
    used = set()
    items = list(remaining.items())
    while items:
        a, e = items.pop()
        grp = {a: e}
        gv = clos(a.free & vset)
        ch = True
        while ch:
            ch = False
            for b, f in list(items):
                if b.free & gv:
                    grp[b] = f
                    gv = clos(gv | (b.free & vset))
                    items.remove((b, f))
                    ch = True
        groups.append((gv, grp))
        used |= gv
    for v in vs:
        if v not in used:
            res = mul(res, v.size)
    for gv, grp in groups:
        res = mul(res, _close_sum(gv, grp))
    return res


def _close_sum(gv, grp):
    mono = tuple(sorted(grp.items(), key=lambda t: t[0].digest))
    lvl = max([a.level for a, e in mono] + [v.size.level for v in gv] + [0]) + 1
    gv = sorted(gv, key=lambda v: v.size.digest)
    best = None
    base = mk_poly({mono: Fraction(1)})
    gs = set(gv)
    depd = any(v.size.free & gs for v in gv)
    perms = itertools.permutations(gv) if len(gv) <= 5 else [tuple(_topo(gv))]
    for perm in perms:
        if not depd and [v.size.digest for v in perm] != [v.size.digest for v in gv]:
            continue
        if depd and not _is_topo(perm):
            continue
        mp = {}
        bv = []
        for k, v in enumerate(perm):
            w = Var.bound(lvl, subst(v.size, mp), k)
            bv.append(w)
            mp[v] = idx(w)
        b = subst(base, mp)
        if best is None or b.digest < best[0].digest:
            best = (b, tuple(bv))
    b, bvs = best
    mm = b.mono()
    if mm is None or mm[0] != 1:
        # renaming changed shape (rare): build from poly terms
        if mm is None:
            return add_all([scale(_mk_sum(bvs, m2), c2) for m2, c2 in b.terms.items()])
        return scale(_mk_sum(bvs, mm[1]), mm[0])
    return _mk_sum(bvs, mm[1])


def _is_topo(perm):
    seen = set()
    allv = set(perm)
    for v in perm:
        if (v.size.free & allv) - seen:
            return False
        seen.add(v)
    return True


def _topo(gv):
    out, rest = [], list(gv)
    while rest:
        for v in rest:
            if not (v.size.free & set(rest) - {v}):
                out.append(v)
                rest.remove(v)
                break
        else:
            return out + rest
    return out


def _mk_sum(bvs, mono):
    body = mk_poly({mono: Fraction(1)})
    nn = mono_nonneg(mono)
    it = integral(body)
    at = mk_atom("sum", (tuple(bvs), body), bound=set(bvs), nonneg=nn, integer=it)
    return from_atom(at)


def open_sum(a):
    """fresh variables and monomial of a sum atom"""
    bvs, body = a.data
    mp = {}
    nv = []
    for b in bvs:
        w = Var("o", subst(b.size, mp))
        nv.append(w)
        mp[b] = idx(w)
    nb = subst(body, mp)
    return nv, nb


def any_(vs, b, guard=None):
    """exists vs: b"""
    return gt0(ssum(vs, b, guard))


def all_(vs, b, guard=None):
    g = ONE if guard is None else guard
    return ONE - gt0(ssum(vs, mul(g, ONE - b)))


SYMMETRIC = {"rmax", "rmin", "rprod", "median", "pctl", "ndistinct", "sorted", "usorted", "setelem", "kurt",
             "pearson", "spearman", "kendall", "pearson_p", "spearman_p", "kendall_p"}


def red(name, vs, *args, **kw):
    """a non-linear reduction binding vs over args (all Poly)"""
    if isinstance(vs, Var):
        vs = [vs]
    args = [lift(a) for a in args]
    lvl = max([a.level for a in args] + [v.size.level for v in vs] + [0]) + 1
    if vs and not any(v in a.free for v in vs for a in args[:1]) and name in ("rmax", "rmin"):
        if len(args) < 2 or args[1] is ONE:
            return args[0]
    vs = list(vs)
    if name in ("rmax", "rmin") and vs:
        mm = args[0].mono()
        if mm and mm[0] == 1 and len(mm[1]) == 1 and mm[1][0][1] == 1 and mm[1][0][0].kind == "red" and mm[1][0][0].data[0] == name:
            a = mm[1][0][0]
            mp, nv = {}, []
            for b in a.data[1]:
                w = Var("o", subst(b.size, mp))
                nv.append(w)
                mp[b] = idx(w)
            inner = [subst(x, mp) for x in a.data[2:]]
            g = mul(args[1] if len(args) > 1 else ONE, inner[1] if len(inner) > 1 else ONE)
            return red(name, vs + nv, inner[0], *([g] if g is not ONE else []))
        if len(args) > 1 and args[1] is ONE:
            args = args[:1]
    if name == "ndistinct":
        kw.update(integer=True, nonneg=True)
    if name in ("rmax", "rmin", "sorted", "usorted", "setelem", "median") and args:
        if name != "median" and integral(args[0]):
            kw["integer"] = True
        if is_pos(args[0]):
            kw["pos"] = True
        elif is_nonneg(args[0]):
            kw["nonneg"] = True
    kw.pop("symmetric", None)
    best = None
    perms = itertools.permutations(vs) if (len(vs) <= 3 and name in SYMMETRIC) else [tuple(vs)]
    kw.pop("symmetric", None)
    for perm in perms:
        if not _is_topo(perm):
            continue
        mp = {}
        bv = []
        for k, v in enumerate(perm):
            w = Var.bound(lvl, subst(v.size, mp), k)
            bv.append(w)
            mp[v] = idx(w)
        bv = tuple(bv)
        nargs = tuple(subst(a, mp) for a in args)
        at = mk_atom("red", (name, bv) + nargs, bound=set(bv), **kw)
        if best is None or at.digest < best.digest:
            best = at
    return from_atom(best)


# --------------------------------------------------------------- substitution

_subst_memo = {}


def subst(p, mp):
    """substitute Vars by Polys"""
    mp = {v: lift(t) for v, t in mp.items()}
    mp = {v: t for v, t in mp.items() if v in p.free}
    if not mp:
        return p
    key = (p.digest, tuple(sorted((v.digest, t.digest) for v, t in mp.items())))
    r = _subst_memo.get(key)
    if r is not None:
        return r
    parts = []
    for m, c in p.terms.items():
        if not any(a.free & mp.keys() for a, e in m):
            parts.append(mk_poly({m: c}))
            continue
        res = const(c)
        keep = []
        for a, e in m:
            if a.free & mp.keys():
                na = subst_atom(a, mp)
                res = mul(res, power(na, e)) if e != 1 else mul(res, na)
            else:
                keep.append((a, e))
        if keep:
            res = mul(res, mk_poly({tuple(keep): Fraction(1)}))
        parts.append(res)
    r = add_all(parts)
    _subst_memo[key] = r
    return r


def subst_atom(a, mp):
    return rebuild_atom(a, lambda p: subst(p, mp), mp)


def rebuild_atom(a, f, varmap=None):
    """reconstruct atom through its smart constructor with f applied to sub-polys"""
    k = a.kind
    d = a.data
    if k == "idx":
        v = d[0]
        if varmap and v in varmap:
            return varmap[v]
        nsz = f(v.size)
        if nsz is not v.size and v.level is not None:
            return idx(Var.bound(v.level, nsz, 0))
        return from_atom(a)
    if k in ("sz", "c", "num", "s", "szm1"):
        return from_atom(a)
    if k == "in":
        return app(d[0], *[f(x) for x in d[1:]], boolean=a.boolean, nonneg=a.nonneg, pos=a.pos,
                   opaque=False, integer=a.integer) if not (a.opaque and not any(x.opaque for x in d[1:])) else \
            app(d[0], *[f(x) for x in d[1:]], boolean=a.boolean, nonneg=a.nonneg, pos=a.pos, opaque=True, integer=a.integer)
    if k == "let":
        return mk_let(d[0], [f(x) for x in d[1:]])
    if k == "mu":
        return from_atom(mk_atom("mu", d[:2] + tuple(f(x) for x in d[2:]), boolean=a.boolean, nonneg=a.nonneg,
                                 pos=a.pos, opaque=False, integer=a.integer))
    if k == "opq":
        return from_atom(mk_atom("opq", d[:2] + tuple(f(x) for x in d[2:]), opaque=True))
    if k == "pow":
        b = f(d[0])
        return b
    if k == "fn":
        return fn(d[0], *[f(x) for x in d[1:]], **_flags(a, d[0]))
    if k == "abs":
        return absv(f(d[0]))
    if k == "max":
        return max_(f(d[0]), f(d[1]))
    if k == "gt0":
        return gt0(f(d[0]))
    if k == "ge0":
        return ge0(f(d[0]))
    if k == "eq0":
        return eq0(f(d[0]))
    if k == "mod":
        return mod(f(d[0]), f(d[1]))
    if k == "fdiv":
        return floordiv(f(d[0]), f(d[1]))
    if k == "sum":
        bvs, body = d
        mp = {}
        nv = []
        for b in bvs:
            w = Var("o", f(subst(b.size, mp)))
            nv.append(w)
            mp[b] = idx(w)
        nb = subst(body, mp)
        return ssum(nv, f(nb))
    if k == "red":
        name, bvs = d[0], d[1]
        mp = {}
        nv = []
        for b in bvs:
            w = Var("o", f(subst(b.size, mp)))
            nv.append(w)
            mp[b] = idx(w)
        args = [f(subst(x, mp)) for x in d[2:]]
        return red(name, nv, *args, **_flags(a, name))
    if k == "tup":
        return from_atom(mk_atom("tup", tuple(f(x) for x in d)))
    raise NotImplementedError(k)


def _flags(a, name):
    if name in ("exp", "log"):
        return {}
    kw = {}
    if a.boolean:
        kw["boolean"] = True
    if a.pos:
        kw["pos"] = True
    elif a.nonneg:
        kw["nonneg"] = True
    if a.integer:
        kw["integer"] = True
    if a.opaque and not any(p.opaque for p in _args_of(a.data)):
        kw["opaque"] = True
    return kw


def tup(*args):
    return from_atom(mk_atom("tup", tuple(lift(a) for a in args)))


def map_atoms(p, f, memo=None):
    """bottom-up rewriting: f(atom) -> Poly or None"""
    if memo is None:
        memo = {}
    r = memo.get(p.digest)
    if r is not None:
        return r
    parts = []
    for m, c in p.terms.items():
        res = const(c)
        for a, e in m:
            x = f(a)
            if x is None:
                if a.kind == "let":
                    fv, b = LETS[a.data[0]]
                    nb = map_atoms(b, f, memo)
                    if nb is b and all(map_atoms(v.size, f, memo) is v.size for v in fv):
                        x = mk_let(a.data[0], [map_atoms(q, f, memo) for q in a.data[1:]])
                    else:
                        if nb.weight > MAX_WEIGHT:
                            nb = paren(nb)
                        x = subst(nb, dict(zip(fv, [map_atoms(q, f, memo) for q in a.data[1:]])))
                elif _args_of(a.data) or a.kind in ("sum", "red"):
                    x = rebuild_atom(a, lambda q: map_atoms(q, f, memo))
                else:
                    x = from_atom(a)
            res = mul(res, power(x, e)) if e != 1 else mul(res, x)
        parts.append(res)
    r = add_all(parts)
    memo[p.digest] = r
    return r


def all_atoms(p, acc=None):
    """every atom occurring anywhere inside p"""
    if acc is None:
        acc = {}
    for a in p.atoms():
        if a.digest in acc:
            continue
        acc[a.digest] = a
        if a.kind == "let":
            all_atoms(LETS[a.data[0]][1], acc)
        for q in _args_of(a.data):
            all_atoms(q, acc)
        for d in a.data:
            if isinstance(d, tuple):
                for v in d:
                    if isinstance(v, Var):
                        all_atoms(v.size, acc)
    return acc


# -------------------------------------------------------------------- printing

def atom_str(a, depth=0):
    k, d = a.kind, a.data
    if depth > 6:
        return "…"
    s = lambda p: poly_str(p, depth + 1)
    if k == "idx":
        return repr(d[0])
    if k in ("sz", "c", "szm1"):
        return str(d[0])
    if k == "num":
        return str(d[0])
    if k == "s":
        return repr(d[0])
    if k == "in":
        return "%s[%s]" % (d[0], ",".join(s(x) for x in d[1:])) if len(d) > 1 else d[0]
    if k == "mu":
        return "μ%s.%s[%s]" % (d[0], d[1], ",".join(s(x) for x in d[2:]))
    if k == "opq":
        return "opaque<%s>(%s)" % (d[0], ",".join(s(x) for x in d[2:]))
    if k == "let":
        return "L%s[%s]" % (d[0][:4], ",".join(s(x) for x in d[1:]))
    if k == "pow":
        return "(%s)" % s(d[0])
    if k == "fn":
        return "%s(%s)" % (d[0], ", ".join(s(x) for x in d[1:]))
    if k == "abs":
        return "|%s|" % s(d[0])
    if k == "max":
        return "max(%s, %s)" % (s(d[0]), s(d[1]))
    if k == "gt0":
        return "[%s > 0]" % s(d[0])
    if k == "ge0":
        return "[%s >= 0]" % s(d[0])
    if k == "eq0":
        return "[%s == 0]" % s(d[0])
    if k == "mod":
        return "(%s mod %s)" % (s(d[0]), s(d[1]))
    if k == "fdiv":
        return "(%s div %s)" % (s(d[0]), s(d[1]))
    if k == "sum":
        return "Σ{%s}(%s)" % (",".join("%s<%s" % (v, poly_str(v.size)) for v in d[0]), s(d[1]))
    if k == "red":
        return "%s{%s}(%s)" % (d[0], ",".join("%s<%s" % (v, poly_str(v.size)) for v in d[1]), ", ".join(s(x) for x in d[2:]))
    if k == "tup":
        return "<%s>" % ", ".join(s(x) for x in d)
    return "%s%r" % (k, d)


def poly_str(p, depth=0):
    if not p.terms:
        return "0"
    out = []
    for i, (m, c) in enumerate(p.terms.items()):
        if i >= 14 and depth > 0 or i >= 40:
            out.append("… (%d terms)" % len(p.terms))
            break
        f = []
        if not m:
            f.append(str(c))
        else:
            if c == -1:
                f.append("-")
            elif c != 1:
                f.append(str(c) + "·")
            f.append("·".join(atom_str(a, depth) + ("" if e == 1 else "^%s" % e) for a, e in m))
        out.append("".join(f))
    return " + ".join(out)
