"""Maximum likelihood estimators."""
from rules.base import *

RULE = "Value-graph equivalence of the iteration (start, damped Newton updates, stopping test) and of the outputs with the published model."
KEYS = ["quality_scores", "observer_bias", "observer_inconsistency", "content_ambiguity", "raw_scores", "reconstructions", "num_iter"]


def original(m, tier):
    def f(rep):
        kw = mle_kw()
        kw["gradient_method"] = K("original")
        compare_outputs(rep, m + "(original)", model_run(m, kw), spec_of(m), KEYS, scenes_of(m, tier))
    return f


def tasks(tier):
    out = [(m, against_spec(m, KEYS, tier)) for m in MLE + MLE_DMOS + ["LegacyMaximumLikelihoodEstimationModel"]]
    out += [(m + "(original)", original(m, tier)) for m in MLE[:2]]
    return out
