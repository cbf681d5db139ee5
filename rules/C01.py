"""MOS family equals the reference statistics of the votes cast."""
from rules.base import *

RULE = "Value-graph equivalence of every reported statistic with a reference definition."
KEYS = ["quality_scores", "quality_ambiguity", "quality_scores_std", "quality_scores_ci95", "raw_scores", "reconstructions"]


def tasks(tier):
    sc = model_scenes(tier)
    out = []
    for m in ("MosModel",):
        out.append((m, lambda rep, m=m: compare_outputs(rep, m, model_run(m), spec_run("model", MOS_FAMILY[m]), KEYS, sc)))
    return out
