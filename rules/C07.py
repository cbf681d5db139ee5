"""Named estimators are MOS after the advertised preprocessing."""
from rules.base import *

RULE = "Value-graph equivalence of the differential-scoring, z-scoring and combined estimators with reference definitions."
OPTIONS = {
    "dscore_mode": dict(dscore=True), "zscore_mode": dict(zscore=True),
    "subject_rejection": dict(reject="kurtosis"),
}


def with_options(cls, kw, spec, tier):
    def f(rep):
        compare_outputs(rep, "%s(%s)" % (cls, ",".join(sorted(kw))), model_run(cls, kw), spec_run("model", spec), ["quality_scores", "quality_scores_std", "raw_scores"],
                        model_scenes(tier)[:6])
    return f


def tasks(tier):
    out = []
    for m in ("DmosModel", "ZscoringMosModel", "LiveDmosModel", "ZscoringSubjrejMosModel", "SubjrejDmosModel", "ZscoringSubjrejDmosModel",
              "PerSubjectModel", "LeastSquaresModel"):
        out.append((m, against_spec(m, ["quality_scores", "quality_scores_std", "quality_ambiguity", "raw_scores", "observer_rejected", "observer_bias"], tier)))
    for o, sp in OPTIONS.items():
        out.append(("MosModel(%s)" % o, with_options("MosModel", {o: True}, sp, tier)))
        if o != "subject_rejection":
            def g(rep, o=o, sp=sp):
                a = model_run("PerSubjectModel", {o: True})
                compare_outputs(rep, "PerSubjectModel(%s)" % o, a, spec_run({"dscore_mode": "ps_dscore", "zscore_mode": "ps_zscore"}[o]), ["quality_scores"], model_scenes(tier)[:6])
            out.append(("PerSubjectModel(%s)" % o, g))
    out.append(("DmosModel(subject_rejection)", with_options("DmosModel", {"subject_rejection": True}, dict(dscore=True, reject="kurtosis"), tier)))
    out.append(("MosModel(subject_rejection,type=pearson)", with_options("MosModel", {"subject_rejection": True, "subject_rejection_type": "pearson"}, dict(reject="pearson"), tier)))
    return out
