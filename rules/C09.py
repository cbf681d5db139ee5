"""Correlation-based subject rejection."""
from rules.base import *
from rules.C08 import KEYS, coverage, directed

RULE = "Value-graph equivalence of the correlation screening with its reference definition."


def tasks(tier):
    out = []
    for m in ("SubjrejMosModelPearson", "SubjrejMosModelSpearman", "BiasremvSubjrejMosModelPearson", "BiasremvSubjrejMosModelSpearman"):
        def f(rep, m=m):
            sc = directed(tier)
            # strongly agreeing subjects, so that the 0.7 ceiling applies
            for i in range(3):
                sc.append(Scene("agree%d" % i, 6, 5, 1 + i % 2, lambda e, s, r, i=i: 1 + 0.7 * e + (0.1 + 0.5 * (s == 0)) * u("agree", i, e, s, r) - (3.5 * e / 5 if s == 4 and i == 1 else 0), seed=530 + i))
            if m.startswith("Bias") and tier == "quick":
                sc = sc[:2] + sc[-6:]
            compare_outputs(rep, m, run_of(m), spec_of(m), KEYS, sc)
            coverage(rep, m, sc)
        out.append((m, f))
    return out
