"""Degrees of freedom, log-likelihood, AIC, BIC."""
from rules.base import *

RULE = "Value-graph equivalence of the fit criteria with their definitions."


def tasks(tier):
    return [(m, against_spec(m, list(FIT), tier)) for m in list(MOS_FAMILY) + PROJECTION + MLE + MLE_DMOS]
