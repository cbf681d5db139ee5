"""Prediction metrics."""
from rules.exports import *
from rules.C17 import unchanged, bundle

RULE = ("Value-graph equivalence of each metric with its definition (root mean squared error, Pearson, Spearman with average ranks, Kendall tau-b), "
        "on per-stimulus scores or raw votes aggregated per stimulus, with and without the logistic mapping; exceptional exit on unequal lengths.")
PM = "sureal.perf_metric"
METRICS = {"RmsePerfMetric": "RMSE", "PccPerfMetric": "PCC", "SrccPerfMetric": "SRCC", "KendallPerfMetric": "KENDALL"}
# per-stimulus truth: "s" one score, n raw votes
TRUTHS = {"scores": ["s"] * 6, "raw votes": [3, 2, 4, 1, 3], "raw votes and scores": [2, "s", 3, "s", 1, 2], "two stimuli": ["s", "s"]}
CONT = ("list", "tuple", "array")


def truth(c, what, kind):
    def t(i, j):
        return N(T.app("V", T.const(i), T.const(j), ZERO))
    xs = []
    for i, x in enumerate(what):
        if x == "s":
            xs.append(t(i, 0))
        elif kind == "tuple":
            xs.append(Tup([t(i, j) for j in range(x)]))
        elif kind == "array":
            v = Var("j", T.const(x))
            xs.append(c.alloc(ArrC([Dim([v])], T.app("V", T.const(i), T.idx(v), ZERO), ZERO), owner="input.arg"))
        else:
            xs.append(lst(c, [t(i, j) for j in range(x)]))
    if kind == "tuple":
        return Tup(xs)
    if kind == "array" and all(x == "s" for x in what):
        v = Var("i", T.const(len(what)))
        return c.alloc(ArrC([Dim([v])], T.app("V", T.idx(v), ZERO, ZERO), ZERO), owner="input.arg")
    return lst(c, xs)


def preds(c, n, kind):
    if kind == "array":
        return symarr(c, "W", n)
    return symlist(c, "W", n, kind)


OPTS = {"plain": {}, "mapping": dict(enable_mapping=K(True)), "mapping off": dict(enable_mapping=K(False)), "median": dict(aggr_method=Ext("numpy.median")),
        "maximum, mapping": dict(aggr_method=Ext("numpy.max"), enable_mapping=K(True))}


def make(tn, n, k1, k2):
    return lambda c: bundle(c, t=truth(c, TRUTHS[tn], k1), p=preds(c, n, k2))


def at(c, b, k):
    return c.content(b).attrs[k]


def evaluate(cls, kw):
    def f(c, b):
        return c.call(c.attr(c.call(c.get(PM, cls), at(c, b, "t"), at(c, b, "p")), "evaluate"), **kw)
    return f


def reference(kind, kw):
    def f(c, b):
        return c.call(c.get("spec.metrics", "metric"), K(kind), at(c, b, "t"), at(c, b, "p"), kw.get("aggr_method", K(None)), kw.get("enable_mapping", K(False)))
    return f


def scenes(tier):
    return vscenes(tier)[:1] + [VScene("below zero", 77, off=-3)] + [VScene("ties/%d" % i, 70 + i, grid=g) for i, g in enumerate((3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7, 3, 4, 5))]


def general(cls, kind):
    """any number of stimuli"""
    def f(c, b):
        return c.call(c.attr(c.call(c.get(PM, cls), c.arr("V", E, owner="input.arg"), c.arr("W", E, owner="input.arg")), "evaluate"))

    def g(c, b):
        return c.call(c.get("spec.metrics", "metric"), K(kind), c.arr("V", E, owner="input.arg"), c.arr("W", E, owner="input.arg"), K(None), K(False))
    return f, g


def tasks(tier):
    out = []
    for cls, kind in METRICS.items():
        for tn in TRUTHS:
            for on, kw in OPTS.items():
                if tn == "two stimuli" and "mapping" in kw:
                    continue
                for k1, k2 in ((("list", "list"), ("array", "array"), ("tuple", "list")) if on in ("plain", "mapping") else (("list", "array"),)):
                    def g(rep, cls=cls, kind=kind, tn=tn, on=on, kw=kw, k1=k1, k2=k2):
                        n = len(TRUTHS[tn])
                        t = "%s of %s (%s) and predictions (%s), %s" % (kind, tn, k1, k2, on)
                        compare(rep, t, make(tn, n, k1, k2), evaluate(cls, kw), reference(kind, kw), scenes(tier))
                        unchanged(rep, "inputs of " + t, make(tn, n, k1, k2), evaluate(cls, kw), scenes(tier)[:1])
                    out.append(("%s/%s/%s/%s/%s" % (kind, tn, on, k1, k2), g))
        def h(rep, cls=cls, kind=kind):
            f, g = general(cls, kind)
            sc = [Scene("scores/%d" % n, n, 2, 1, lambda e, s, r: 0, seed=n, tables={"V": lambda st, e, n=n: round(5 * u(n, "V", e), 1 if n % 2 else 0), "W": lambda st, e, n=n: round(5 * u(n, "W", e), 1 if n % 2 else 0)}) for n in (3, 5, 6, 8)]
            compare(rep, "%s of any number of scores" % kind, lambda c: K(None), f, g, sc)
        out.append((kind + "/any size", h))

        def bad(rep, cls=cls, kind=kind):
            for tn, n in (("scores", 5), ("scores", 7), ("raw votes", 4), ("raw votes", 6), ("scores", 1), ("raw votes", 13)):
                for k in ("list", "array"):
                    r = run_on("%s of %d %s and %d predictions (%s)" % (kind, len(TRUTHS[tn]), tn, n, k), make(tn, n, "list", k), evaluate(cls, {}))
                    rep.funcs |= set(r.functions())
                    oid = r.name + " is refused"
                    if r.exc is not None:
                        rep.add(oid, "proved", "ends in " + r.exc.name, r.name)
                        continue
                    if not r.ok:
                        rep.add(oid, "inconclusive", r.fail or "no value", r.name)
                        continue
                    try:
                        ok = all(raised(r, sc.structure(r)) for sc in vscenes("quick"))
                    except Opaque as o:
                        rep.add(oid, "inconclusive", str(o), r.name)
                        continue
                    rep.add(oid, "agreed" if ok else "violated", "" if ok else "a score is returned for lists of unequal lengths", r.name)
        out.append((kind + "/lengths", bad))
    return out
