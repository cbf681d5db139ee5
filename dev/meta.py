"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (committed; regenerate after edits)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMF = "sureal/subjective_model.py"
DRF = "sureal/dataset_reader.py"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})


ANY = "for every dataset: any number of stimuli, subjects and repetitions, any votes, any pattern of votes not cast"
GOLD = "The tests compare a few outputs on a handful of fixed datasets with recorded numbers; they do not quantify over vote tables, sizes, missing-vote patterns or ties."

P("C01", "MOS statistics are those of the votes actually cast",
  "For every stimulus, the mean opinion score is the arithmetic mean of all votes cast for it over subjects and repetitions; the reported ambiguity is the unbiased standard deviation of those votes; the standard error is that deviation divided by the square root of the number of votes cast, and the 95% confidence interval is 1.95996 standard errors either side. Votes that were not cast contribute nothing.",
  ["inputs"], ANY, GOLD, [SMF], [("mean and spread over subjects and repetitions", SMF + ":MosModel._get_mos_and_stats"), ("stacking of repetitions", SMF + ":SubjectiveModel._stack_repetitions_along_axis")],
  ["result of run_modeling"])
P("C02", "Shifting every vote by a constant shifts only the scores",
  "Adding one constant to every vote adds exactly that constant to every estimated quality score (or, for differential and z-scored models, leaves it unchanged) and leaves every bias, inconsistency, ambiguity, standard deviation, confidence interval width, rejection decision and fit criterion unchanged. This holds for every estimator except the differential maximum-likelihood variants, whose starting point is not differential.",
  ["inputs"], ANY + ", any constant", GOLD + " No test relates two runs.", [SMF],
  [("location equivariance of every estimator", SMF + ":_run_modeling of each model")], ["result of run_modeling"])
P("C03", "Rescaling or reflecting the vote scale rescales closed-form results",
  "Multiplying every vote by a non-zero constant multiplies every closed-form quality score and bias by it and every spread by its absolute value, and changes neither who is rejected nor the rejection statistics.",
  ["inputs"], ANY + ", any non-zero factor", GOLD + " No test relates two runs.", [SMF],
  [("scale equivariance", SMF + ":MosModel, BiasremvMosModel, SubjrejMosModel and variants, LeastSquaresModel, LiveDmosModel")], ["result of run_modeling"])
P("C04", "Results do not depend on the order of subjects, stimuli or repetitions",
  "Reordering the subjects permutes the per-subject outputs in the same way and changes nothing else; reordering the stimuli permutes the per-stimulus outputs in the same way and changes nothing else; reordering the repetitions of a vote changes no estimate.",
  ["inputs"], ANY + ", any permutation", GOLD + " No test permutes a dataset.", [SMF],
  [("axis-wise aggregation", SMF + ":_run_modeling of each model")], ["result of run_modeling"])
P("C05", "Votes that were not cast are neutral",
  "An estimator depends only on the votes that were cast: every mean, variance, bias, weight, count and test statistic is taken over cast votes only, and appending a repetition in which nobody voted changes no estimate.",
  ["inputs"], ANY, GOLD + " Two tests drop votes at random with one seed.", [SMF, DRF],
  [("missing-aware aggregation", SMF + ":_get_opinion_score_3darray_with_preprocessing"), ("missing-aware sums", "sureal/tools/misc.py:weighed_nanmean_2d")], ["result of run_modeling"])
P("C07", "Each named preprocessing variant applies exactly its declared steps",
  "The differential models subtract from every vote the mean vote of the stimulus's own reference and add the dataset's reference score; z-scored models centre and scale each subject's votes by that subject's own mean and unbiased spread; combined models apply differential scoring, z-scoring and rejection in that order, and the live-difference model maps z-scores linearly to the 0-100 scale. Each then reports the mean-opinion-score statistics of the votes so processed.",
  ["inputs", "configurations"], ANY + ", any assignment of stimuli to contents", GOLD, [SMF],
  [("preprocessing pipeline", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing"), ("reference lookup", SMF + ":SubjectiveModel._get_ref_mos")], ["result of run_modeling"])
P("C08", "Outlier screening rejects exactly the subjects the BT.500 rule names",
  "With outlier screening on, each subject's votes at or beyond the per-stimulus limits (2 standard deviations if the kurtosis lies in [2,4], else the square root of 20) are counted above and below; a subject is rejected if and only if more than 5% of the presentations are counted and the relative imbalance is below 0.3, except that nobody is rejected when everybody would be. The two ratios are reported per subject, and every score is computed from the votes of the remaining subjects only.",
  ["inputs"], ANY, GOLD + " The screening thresholds are crossed by a few subjects of three datasets.", [SMF],
  [("screening loop", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing")], ["observer_rejected and quality_scores of run_modeling"])
P("C09", "Correlation screening rejects exactly the low-correlation subjects",
  "With correlation screening on, a subject is rejected if and only if the correlation (linear or rank) of its repetition-averaged votes with the mean opinion scores, over the stimuli it voted on, does not exceed the smaller of 0.7 and the mean minus the standard deviation of all subjects' correlations. The correlations are reported, and scores are computed from the votes of the remaining subjects only.",
  ["inputs"], ANY, GOLD, [SMF], [("correlation screening", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing")], ["observer_rejected and quality_scores of run_modeling"])
P("C10", "Bias removal subtracts each subject's mean deviation from the stimulus means",
  "The bias of a subject is the mean, over the votes it cast, of the vote minus the stimulus mean; bias removal subtracts exactly that from each of the subject's votes, and the reported bias, scores, spreads and remaining votes follow from those same numbers.",
  ["inputs"], ANY, GOLD, [SMF], [("bias removal", SMF + ":BiasremvMosModel"), ("bias estimate", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing")], ["result of run_modeling"])
P("C11", "The alternating-projection estimator solves its fixed-point equations",
  "The alternating-projection estimator starts from mean opinion scores and mean residuals and iterates exactly the declared updates (inconsistency as residual spread per subject, scores as inverse-variance weighted means of de-biased votes, bias as mean residual) until the score change falls below the threshold or the iteration cap, and reports the values of the last iteration with the bias centred.",
  ["inputs"], ANY, GOLD, [SMF], [("alternating projection", SMF + ":SubjectMLEModelProjectionSolver._run_modeling")], ["result of run_modeling"])
P("C12", "The maximum-likelihood estimators perform the declared updates",
  "The maximum-likelihood estimators apply, in the declared order, the damped Newton updates derived from the Gaussian vote model (bias, inconsistency, content ambiguity, scores), hold the omitted factor at zero in the subject- or content-oblivious variants, stop when the score change falls below the threshold or at the iteration cap, and report the values of the last iteration.",
  ["inputs", "configurations"], ANY + ", any stopping threshold", GOLD, [SMF], [("Newton updates", SMF + ":MaximumLikelihoodEstimationModel._run_modeling"), ("legacy updates", SMF + ":LegacyMaximumLikelihoodEstimationModel._run_modeling")], ["result of run_modeling"])
P("C13", "Fit criteria count parameters and votes correctly",
  "Degrees of freedom per vote follow the model's declared parameter count over the votes of the dataset (two per stimulus for mean-based models, per-subject parameters counted once per repetition); the log-likelihood is the mean, over the votes used, of the model's log density at the reported estimates; AIC is 2 dof - 2 log-likelihood and BIC is dof times the log of the number of votes cast minus 2 log-likelihood.",
  ["inputs", "configurations"], ANY, GOLD, [SMF], [("degrees of freedom", SMF + ":_get_dof"), ("likelihood", SMF + ":loglikelihood_fcn and loglikelihood_function")], ["dof, loglikelihood, aic, bic of run_modeling"])
P("C14", "Reported uncertainty is the curvature of the likelihood at the estimate",
  "Every reported standard deviation of a likelihood-based estimate is the inverse square root of the observed information of that parameter at the reported estimate (mean-based models: the standard error), and every 95% confidence interval is 1.95996 of it either side, or the chi-square interval where the estimator declares it.",
  ["inputs", "configurations"], ANY, GOLD, [SMF], [("standard deviations", SMF + ":MaximumLikelihoodEstimationModel._run_modeling, SubjectMLEModelProjectionSolver._run_modeling")], ["*_std and *_ci95 of run_modeling"])

EQ = "static value-graph equivalence (abstract interpretation to terms, normal forms, random interpretation)"
REL = "static relational value-graph analysis (abstract interpretation to terms, random interpretation of term pairs)"
TECH = {"C01": EQ, "C02": REL, "C03": REL, "C04": REL, "C05": EQ, "C07": EQ, "C08": EQ, "C09": EQ, "C10": EQ, "C11": EQ, "C12": EQ, "C13": EQ, "C14": EQ}
NOTE_EQ = ("Every output of the entry point is extracted from the source as a closed term over symbolic sizes and votes and compared with a reference "
           "definition: identical normal forms hold for all inputs; otherwise the two terms are interpreted in a fixed family of finite structures. "
           "Trusts the library models in sa/ and real-number arithmetic; constructs the engine cannot model make an obligation inconclusive, not violated.")
NOTE = {}
NA = []


def main():
    try:
        import importlib.util
        sp = importlib.util.spec_from_file_location("meta2", os.path.join(HERE, "dev", "meta2.py"))
        if sp and os.path.exists(os.path.join(HERE, "dev", "meta2.py")):
            m = importlib.util.module_from_spec(sp)
            m.P, m.TECH, m.NOTE, m.NA, m.EQ, m.REL = P, TECH, NOTE, NA, EQ, REL
            sp.loader.exec_module(m)
    except FileNotFoundError:
        pass
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    na = dict(NA)
    checks = []
    for p in PROPS:
        i = p["id"]
        if i in na:
            continue
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH[i], "level": "other", "level_note": NOTE.get(i, NOTE_EQ)})
    man = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",
           "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA],
           "notes": "All checks are pure static analysis of /repo's source by check.py (standard-library Python); see DESIGN.md."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
