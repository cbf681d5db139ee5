"""Subject bias removal."""
from rules.base import *

RULE = "Value-graph equivalence of bias estimates and bias-free scores with the P.913 definition."
KEYS = ["observer_bias", "quality_scores", "quality_scores_std", "quality_ambiguity", "quality_scores_ci95", "raw_scores", "reconstructions"]


def options(tier):
    def f(rep):
        compare_outputs(rep, "BiasremvMosModel(dscore)", model_run("BiasremvMosModel", {"dscore_mode": True}), spec_run("model", dict(dscore=True, debias=True)), KEYS, model_scenes(tier)[:5])
        compare_outputs(rep, "MosModel(bias_offset)", model_run("MosModel", {"bias_offset": True}), spec_run("model", dict(debias=True)), KEYS[1:-1], model_scenes(tier)[:5])
    return f


def tasks(tier):
    return [(m, against_spec(m, KEYS, tier, sparse_scenes() if m == "BiasremvMosModel" else [])) for m in ("BiasremvMosModel", "BiasremvSubjrejMosModel", "BiasremvSubjrejMosModelPearson", "BiasremvSubjrejMosModelSpearman")] + [
        ("options", options(tier))]
