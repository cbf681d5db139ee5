"""Votes that were not cast."""
from rules.base import *

RULE = ("Value-graph equivalence with reference definitions over cast votes only, on score arrays with arbitrary missing entries, "
        "and invariance under an additional repetition slot in which nobody voted.")
KEYS = ("quality_scores", "quality_scores_std", "quality_ambiguity", "observer_bias", "observer_inconsistency",
        "observer_bias_std", "content_ambiguity", "observer_rejected", "observer_scores_mean", "observer_scores_std")

FITS = ("aic", "bic")


def sparse(m, tier):
    n = 2 if tier == "quick" else 5
    if m in ZSCORED:
        n = 1 if tier == "quick" else 3
    out = []
    for i in range(n):
        r = 1 + i % 2
        if m in MOS_FAMILY or m == "LiveDmosModel":
            out.append(Scene("sparse%d/R=%d" % (i, r), 6, 6, r, _gen(400 + i), _keep(400 + i), seed=400 + i))
    return out


def _gen(seed):
    from rules import base
    return base._generic(seed)


def _keep(seed):
    from rules import base
    return base._keep_mask(seed, 0.75, 6)


def padded(m, tier):
    def f(rep):
        run = run_of(m)
        if not entry_ok(rep, m, run):
            return

        def change(sc):
            R0 = sc.sizes["R"]
            q, v = sc.present, sc.vote
            s2 = sc.variant(sc.name + "/pad", present=lambda e, s, r: q(e, s, r) if r < R0 else 0, vote=lambda e, s, r: v(e, s, r) if r < R0 else 77)
            s2.sizes = dict(sc.sizes, R=R0 + 1)
            return s2
        transformed(rep, m + "/unused repetition", run, scenes_of(m, tier)[:6], change, lambda k, a, sc: a, [k for k in KEYS if k in run.outputs()])
    return f


def against(m, tier):
    def f(rep):
        sc = sparse(m, tier) or scenes_of(m, tier)
        compare_outputs(rep, m, run_of(m), spec_of(m), [k for k in KEYS + FITS if k in run_of(m).outputs()] or ["quality_scores"], sc)
    return f


def tasks(tier):
    out = []
    for m in all_models():
        if m in SINGLE or m == "PerSubjectModel":
            continue
        out.append((m, against(m, tier)))
        if m not in REJECTING:
            out.append((m + "/unused repetition", padded(m, tier)))
    return out
