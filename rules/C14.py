"""Standard deviations and confidence intervals of the parametric estimators."""
from rules.base import *

RULE = "Value-graph equivalence of the reported uncertainty with the curvature of the log-likelihood at the estimate."
KEYS = ["quality_scores_std", "quality_scores_ci95", "observer_bias_std", "observer_bias_ci95", "observer_inconsistency_std",
        "observer_inconsistency_ci95", "content_ambiguity_std", "content_ambiguity_ci95", "quality_ambiguity"]


def tasks(tier):
    return [(m, against_spec(m, KEYS, tier, [] if m in MOS_FAMILY else short_scenes())) for m in list(MOS_FAMILY) + PROJECTION + MLE + MLE_DMOS]
