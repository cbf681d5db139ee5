"""Alternating projection estimator."""
from rules.base import *

RULE = "Value-graph equivalence of the iteration (start, update, stopping test) and of the outputs with the P.910 procedure."
KEYS = ["quality_scores", "observer_bias", "observer_inconsistency", "observer_scores_mean", "observer_scores_std", "raw_scores", "reconstructions", "num_iter"]


def options(tier):
    def f(rep):
        compare_outputs(rep, "SubjectMLEModelProjectionSolver(dscore)", model_run(PROJECTION[0], {"dscore_mode": True}), spec_run("projection", {"dscore": True}, mod="spec.iterative"), KEYS, iter_scenes(tier)[:1])
    return f


def tasks(tier):
    return [(m, against_spec(m, KEYS, tier, tiny_scenes())) for m in PROJECTION] + [("options", options(tier))]
