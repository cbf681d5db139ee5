"""Shifting every vote by a constant."""
from rules.base import *

RULE = "Relational value-graph analysis: each estimator's output terms under votes X and X+delta."


def one(m, tier):
    def f(rep):
        run = run_of(m)
        if not entry_ok(rep, m, run):
            return
        fixed = m in DSCORED or m in ZSCORED
        keys = [k for k in run.outputs() if k not in ("observers",)]

        def change(sc):
            v = sc.vote
            return sc.variant(sc.name + "+delta", vote=lambda e, s, r: v(e, s, r) + 1.75)

        def relate(k, a, sc):
            if k in SHIFTED and not fixed:
                return map_den(lambda x: x + 1.75, a)
            return a
        transformed(rep, m, run, scenes_of(m, tier), change, relate, keys)
        if m in MOS_FAMILY and tier != "none":
            # the same relation as a comparison of normal forms of two analyses
            r2 = model_run(m, inp="shift")
            if r2.ok:
                a, b = run.outputs()["quality_scores"][0], r2.outputs()["quality_scores"][0]
                A, B = run.c.I.lib.arrc(run.c.st, a), r2.c.I.lib.arrc(r2.c.st, b)
                if A is not None and B is not None and len(A.dims) == 1:
                    w = A if fixed else ArrC(A.dims, A.val + T.sym("delta"), A.miss)
                    u_ = run.c.I.unify_dims(w, B)
                    if u_ is not None and u_[0].val is u_[1].val:
                        rep.add(m + "[quality_scores/normal form]", "proved", "same normal form", run.name)
    return f


def tasks(tier):
    return [(m, one(m, tier)) for m in all_models() if m not in MLE_DMOS]
