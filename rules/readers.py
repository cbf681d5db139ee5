"""Shared machinery of the dataset rules."""
from rules.base import *

DR = "sureal.dataset_reader"


class DScene(Scene):
    """dataset structures: list or dictionary style, arbitrary subsets of subjects per stimulus, unordered names and asset ids"""

    def __init__(self, name, e, s, r, c=2, seed=0, p=0.3, tables=None):
        super().__init__(name, e, s, r, lambda e, s, r: round(5 * u(seed, "v", e, s, r), 2), lambda e, s, r: 0 if u(seed, "m", e, s, r) < p else 1, c, seed, tables)
        self.p = p
        names = sorted(range(s), key=lambda i: u(seed, "name", i))
        self.names = [7 + 3 * n for n in names]
        self.who = []
        for e_ in range(e):
            w = [i for i in range(s) if u(seed, "has", e_, i) >= p] or [e_ % s]
            w.sort(key=lambda i: u(seed, "ord", e_, i))
            self.who.append([self.names[i] for i in w])
        # everybody votes somewhere
        for i in range(s):
            if not any(self.names[i] in w for w in self.who):
                self.who[i % e].append(self.names[i])
        self.aids = [10 + 3 * x for x in sorted(range(e), key=lambda i: u(seed, "aid", i))]

    def resized(self, name, z, extra):
        return DScene(name, z["E"], z["S"], z["R"], z["C"], self.seed, self.p, dict(self.extra, **extra))

    def tables(self):
        t = super().tables()
        who, seed, R_ = self.who, self.seed, self.sizes["R"]
        C_ = self.sizes["C"]

        def at(e):
            if not (isinstance(e, int) and 0 <= e < len(who)):
                raise Undef()
            return who[e]

        def okey(st, e, q):
            if not (isinstance(q, int) and 0 <= q < len(at(e))):
                raise Undef()
            return at(e)[q]
        t.update({
            "nvotes": lambda st, e: len(at(e)),
            "okey": okey,
            "has": lambda st, e, k: 1 if k in at(e) else 0,
            "nrep": lambda st, e, k: 1 + int(R_ * u(seed, "nrep", e, k)) if R_ > 1 else 1,
            "Y": lambda st, e, k, r=0: round(5 * u(seed, "Y", e, k, r), 2),
            "aid": lambda st, e: self.aids[e] if isinstance(e, int) and 0 <= e < len(self.aids) else 500 + e,
            "dcid": lambda st, e: int(u(seed, "cid", e) * C_) if e >= C_ else e,
            "dispath": lambda st, e: 1000 + e if e < C_ else 2000 + e,
        })
        t.update(self.extra)
        return t


def dscenes(tier="quick"):
    key = ("ds", tier)
    from rules import base
    if key not in base._scenes:
        out = [DScene("dataset/1", 4, 3, 1, seed=1), DScene("dataset/2", 5, 4, 2, seed=2), DScene("dataset/3", 3, 5, 3, seed=3, c=3), DScene("dataset/full", 4, 4, 2, seed=4, p=0.0), DScene("dataset/one", 2, 1, 1, seed=5, c=1)]
        if tier == "thorough":
            out += [DScene("dataset/t%d" % i, 3 + i % 5, 2 + i % 4, 1 + i % 3, c=1 + i % 3, seed=50 + i, p=0.1 * (i % 6)) for i in range(12)]
        base._scenes[key] = out
    return base._scenes[key]


def run_on(name, make, f):
    """f(c, ds) analysed on the dataset built by make(c)"""
    def go():
        r = Run(name)

        def g(c):
            r.ds = make(c)
            return f(c, r.ds)
        return r.finish(g)
    return cached(("ds", name), go)


def sym(style, votes, **kw):
    return lambda c: c.dataset(style, votes, **kw)


def reader(cls="RawDatasetReader", mod=DR, **kw):
    def f(c, ds):
        return c.call(c.get(mod, cls), ds, **kw)
    return f


def spec(fn, mod="spec.readers", *args, **kw):
    return lambda c, ds: c.call(c.get(mod, fn), ds, *args, **kw)


def value_equal(rep, oid, ra, rb, scenes, tol=1e-6):
    """the whole results of two runs are equal, and neither raises on valid data"""
    if not entry_ok(rep, oid, ra):
        return
    if not rb.ok:
        rep.add(oid, "inconclusive", "reference not analysed: %s" % (rb.fail or rb.exc), rb.name)
        return
    decide_equal(rep, oid, ra, ra.val, rb, rb.val, scenes, tol)
    returns(rep, oid, ra, scenes, rb)


class VScene(Scene):
    """values for datasets of a given shape (Ctx.small)"""
    resized = property(lambda self: (_ for _ in ()).throw(AttributeError()))

    def __init__(self, name, seed, grid=None, tables=None, off=0):
        super().__init__(name, 2, 2, 1, lambda e, s, r: 0, None, 1, seed, tables)
        self.grid, self.off = grid, off

    def tables(self):
        g, seed, off = self.grid, self.seed, self.off
        t = {k: (lambda st, e, s, r=0, k=k: (int(g * u(seed, k, e, s, r)) if g else round(5 * u(seed, k, e, s, r), 3)) + off) for k in ("V", "W")}
        t.update(self.extra)
        return t


def vscenes(tier="quick"):
    n = 4 if tier == "quick" else 20
    return [VScene("votes/%d" % i, 10 + i, grid=(None, 3, 2, 5)[i % 4], off=(0, 0, -1, 0)[i % 4]) for i in range(n)]


NM = {"a": "zoe", "b": "Ann", "c": "bob", "d": "al"}
SHAPES = {
    "list ragged": ([(0, 0, "r0", ["v", 2, "v"]), (1, 0, "p1", [3, "v", ("t", 2)]), (2, 1, "r1", [None, "v", 1])], [(0, "r0"), (1, "r1")]),
    "tuple": ([(5, 1, "p", ("v", "v", 2)), (3, 0, "r0", ("v", None, "v"))], [(0, "r0"), (1, "r1")]),
    "dict ragged": ([(4, 0, "r0", {"zoe": "v", "Ann": 2}), (2, 1, "x", {"bob": ("t", 3), "Ann": "v"}), (9, 1, "r1", {"al": 1, "zoe": 2, "bob": "v"})], [(0, "r0"), (1, "r1")]),
    "list alternating": ([(0, 1, "r0", ["v", "v"]), (1, 0, "r0", [2, "v"]), (2, 1, "r1", ["v", "v"]), (3, 0, "r1", ["v", 2])], [(0, "r0"), (1, "r1")]),
    "list growing": ([(0, 0, "r0", ["v", 2, 3, "v"]), (1, 0, "p1", [2, "v", 1, "v"])], [(0, "r0")]),
    "dict growing": ([(0, 0, "r0", {"q": "v", "a": 2, "p": 3}), (1, 0, "p1", {"p": "v", "q": 2})], [(0, "r0")]),
    "dict one": ([(0, 0, "r0", {"q": "v"})], [(0, "r0")]),
    "dict empty stimulus": ([(0, 0, "r0", {"q": "v", "p": "v"}), (1, 0, "y", {}), (2, 0, "z", {"q": 2})], [(0, "r0")]),
}


def shape(name):
    dis, refs = SHAPES[name]
    return lambda c: c.small(dis, refs)
