"""Multiplying every vote by a non-zero constant (closed-form estimators)."""
from rules.base import *

RULE = "Relational value-graph analysis: each closed-form estimator's output terms under votes X and k*X."


def one(m, tier):
    def f(rep):
        run = run_of(m)
        if not entry_ok(rep, m, run):
            return
        for kap in (2.5, -1.5, 0.01):
            def change(sc):
                v = sc.vote
                return sc.variant("%s*%g" % (sc.name, kap), vote=lambda e, s, r: v(e, s, r) * kap)

            def relate(k, a, sc):
                if k in ("dof", "observer_rejected", "observer_rejected_1st_stats", "observer_rejected_2nd_stats", "observers"):
                    return a
                sgn = 1 if kap > 0 else -1
                if m == "LiveDmosModel":
                    return map_den(lambda x: (x - 50) * sgn + 50, a)
                if m in ZSCORED:
                    if k in SHIFTED + ("observer_bias",):
                        return map_den(lambda x: x * sgn, a)
                    return a
                if k in SHIFTED + ("observer_bias",):
                    if m in DSCORED and k != "observer_bias":
                        return map_den(lambda x: (x - sc.refscore) * kap + sc.refscore, a)
                    return map_den(lambda x: x * kap, a)
                if k in SPREAD:
                    return map_den(lambda x: x * abs(kap), a)
                return None
            transformed(rep, "%s*%g" % (m, kap), run, scenes_of(m, tier) + limits(m), change, relate,
                        [k for k in run.outputs() if k not in FIT + ("observers",) or k == "dof"])
    return f


def limits(m):
    """votes exactly at the upper and lower screening limits (deviations 2 of 8 votes: sigma 1, kurtosis 4), cast by different subjects"""
    if m not in REJECTING or m not in MOS_FAMILY:
        return []
    return [Scene("at the limits", 8, 8, 1, lambda e, s, r: 5 if s == e % 2 else (1 if s == 2 + e % 5 else 3), seed=522, c=1),
            Scene("at the upper limit", 9, 8, 1, lambda e, s, r: 5 if s == 0 else (1 if s == 1 + e % 7 else 3), seed=523, c=1)]


def tasks(tier):
    return [(m, one(m, tier)) for m in list(MOS_FAMILY) + ["LiveDmosModel", "PerSubjectModel", "LeastSquaresModel"]]
