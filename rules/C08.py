"""BT.500 subject rejection."""
from rules.base import *

RULE = "Value-graph equivalence of the screening outcome and statistics with the BT.500 rule."
KEYS = ["observer_rejected", "observer_rejected_1st_stats", "observer_rejected_2nd_stats", "quality_scores", "quality_scores_std",
        "quality_ambiguity", "raw_scores"]


def directed(tier):
    """structures around the thresholds of the rule: many outlying votes, exact ties at the limits, everybody rejected"""
    from rules import base
    out = list(model_scenes(tier))
    n = 3 if tier == "quick" else 10
    for i in range(n):
        out.append(Scene("screen%d" % i, 8 + i % 3, 11, 1 + i % 2, base._outlier(500 + i, (1, 4), 1 + 0.2 * i), base._keep_mask(500 + i, 0.06, 11), seed=500 + i))
    # two groups voting far apart: kurtosis below 2
    out.append(Scene("bimodal", 6, 8, 1, lambda e, s, r: 1 + 4 * ((e + s) % 2), seed=520))
    # every subject alternates between extremes of a 3-level vote: exact equality with mu +/- 2 sigma
    out.append(Scene("limits", 8, 8, 1, lambda e, s, r: 5 if s == e else (1 if s == (e + 4) % 8 else 3), seed=521))
    # the same limits reached by different subjects above and below
    out.append(Scene("limits apart", 9, 8, 1, lambda e, s, r: 5 if s == e % 2 else (1 if s == 2 + e % 5 else 3), seed=522, c=1))
    # all subjects but one rejected
    out.append(Scene("one left", 14, 8, 1, lambda e, s, r: 5 if s == e % 7 else (1 if s == (e + 1) % 7 else 3), seed=524, c=1))
    # share of outlying votes of two subjects exactly 5 %
    out.append(Scene("share of one twentieth", 20, 4, 2, lambda e, s, r: (3 if r or s > 1 else 5 if s == e else 1) if e < 2 else (2 if s < 2 else 4), seed=525, c=1))
    # imbalance of exactly 0.3 (13 above, 7 below)
    out.append(Scene("imbalance of three tenths", 20, 8, 1, lambda e, s, r: (5 if e < 13 else 1) if s == 0 else ((1 if e < 13 else 5) if s == 1 + e % 7 else 3), seed=526, c=1))
    return out


def tasks(tier):
    out = []
    for m in ("SubjrejMosModel", "SubjrejDmosModel", "ZscoringSubjrejMosModel", "ZscoringSubjrejDmosModel", "BiasremvSubjrejMosModel"):
        def f(rep, m=m):
            sc = directed(tier)
            compare_outputs(rep, m, run_of(m), spec_of(m), KEYS, sc)
            coverage(rep, m, sc)
        out.append((m, f))
    return out


def coverage(rep, m, scenes):
    """how many structures actually reject somebody (evidence only)"""
    run = run_of(m)
    if not run.ok or "observer_rejected" not in run.outputs():
        return
    n = 0
    for sc in scenes:
        try:
            v = D.den(run.c, run.c.st, run.outputs()["observer_rejected"][0], sc.structure(run))
            n += 1 if any(x not in (0, UND) for x in v) else 0
        except Opaque:
            pass
    rep.notes.append("%s: %d of %d structures reject at least one subject" % (m, n, len(scenes)))
    rep.add(m + "[structures that reject]", "agreed" if n else "inconclusive", "%d of %d" % (n, len(scenes)), run.name)
