"""Final normalisation and transform."""
from rules.base import *

RULE = ("Relational value-graph analysis: with normalize_final and transform_final the reported scores are the declared function of the "
        "scores reported without them, and every other output is unchanged.")


def tf(*names):
    def g(c):
        return c.alloc(DictC([Ent((), ONE, K(n), N(T.sym("t_" + n), ZERO)) for n in names]))
    g.__name__ = "transform(%s)" % ",".join(names)
    return g


COEF = {"t_p0": 0.75, "t_p1": -1.5, "t_p2": 0.25}


def norm(q):
    m = sum(q) / len(q)
    v = (sum((x - m) ** 2 for x in q) / len(q)) ** 0.5
    return [(x - m) / v for x in q]


def poly(q, names):
    c = {n: COEF["t_" + n] if n in names else 0 for n in ("p0", "p1", "p2")}
    return [c["p2"] * x * x + c["p1"] * x + c["p0"] for x in q]


OPTIONS = [("normalize", dict(normalize_final=True), lambda q: norm(q)),
           ("explicitly off", dict(normalize_final=False, transform_final=None), lambda q: q)]
for ns in (("p1",), ("p0",), ("p2",), ("p0", "p1"), ("p0", "p1", "p2"), ("p0", "p2")):
    OPTIONS.append(("transform %s" % "+".join(ns), dict(transform_final=tf(*ns)), lambda q, ns=ns: poly(q, ns)))
OPTIONS.append(("normalize then transform", dict(normalize_final=True, transform_final=tf("p0", "p1", "p2")), lambda q: poly(norm(q), ("p0", "p1", "p2"))))


def one(m, tier):
    def f(rep):
        base = run_of(m)
        sc = [s.variant(s.name + "/final", extra=dict(s.extra, **{k: (lambda st, v=v: v) for k, v in COEF.items()})) for s in scenes_of(m, tier)[:3 if tier == "quick" else None]]
        opts = OPTIONS if m in MOS_FAMILY or tier == "thorough" else [OPTIONS[0], OPTIONS[-1]]
        for tag, kw, g in opts:
            kw = dict(kw)
            if m in MLE + MLE_DMOS:
                kw.update(mle_kw())
            run = model_run(m, kw)
            if not (run.ok and base.ok):
                entry_ok(rep, "%s/%s" % (m, tag), run)
                continue
            keys = sorted(set(run.outputs()) & set(base.outputs()))
            related(rep, "%s/%s" % (m, tag), run, base, keys, sc, lambda k, d, s: g(d[k]) if k == "quality_scores" else d[k])
    return f


def tasks(tier):
    ms = list(MOS_FAMILY) + ["LiveDmosModel", "LegacyMaximumLikelihoodEstimationModel", "LeastSquaresModel"] + PROJECTION + MLE + MLE_DMOS
    return [(m, one(m, tier)) for m in ms]
