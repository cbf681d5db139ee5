"""Invalid datasets and conflicting options are refused."""
from rules.exports import *
from rules.C26 import dct, inputs
from sa.evalt import Undef

RULE = ("Exceptional-exit analysis: the analysed call on the invalid input ends in an exception on every path (a raise that dominates the return, or "
        "a check whose condition is false in every structure); a path that returns a value is the violation.")

EVERY = list(MOS_FAMILY) + ["LiveDmosModel", "LegacyMaximumLikelihoodEstimationModel", "LeastSquaresModel", "PerSubjectModel"] + PROJECTION + MLE + MLE_DMOS
QUIET = ("builtins.dir", "builtins.print", "logging", "warnings", "time.", "re.match")


def refused(rep, oid, run, scenes):
    rep.funcs |= set(run.functions())
    if run.exc is not None:
        rep.add(oid, "proved", "%s: %s" % (run.exc.name, run.exc.msg[:60]), run.name)
        return
    if run.fail or not run.ok:
        rep.add(oid, "inconclusive", run.fail or "no value", run.name)
        return
    unmodelled = [k for k in run.c.I.notes if k.startswith("unmodelled call") and not any(q in k for q in QUIET)]
    if unmodelled:
        rep.add(oid, "inconclusive", unmodelled[0], run.name)
        return
    n = 0
    for sc in scenes:
        st = sc.structure(run)
        names, vague = strict(run, st)
        if names:
            n += 1
            rep.scenes.add(sc.name)
            continue
        if vague:
            rep.add(oid, "inconclusive", "a check could not be interpreted: %s" % vague, run.name)
            return
        try:
            d = D.den(run.c, run.c.st, run.val, st)
        except Opaque as o:
            rep.add(oid, "inconclusive", str(o), run.name)
            return
        rep.add(oid, "violated", "accepted, with result %s" % short(d), run.name)
        return
    rep.add(oid, "agreed", "refused in %d structures" % n, run.name)


def strict(run, st):
    """(exceptions raised, a check that cannot be interpreted)"""
    vague = ""
    for ev in run.c.I.events:
        if ev.kind not in ("assert", "reject"):
            continue
        g = ev.data[0]
        name = ev.data[1] if ev.kind == "reject" else "AssertionError"
        try:
            pts = list(map(dict, st.points(ev.loops, {}))) if ev.loops else [{}]
        except (Undef, KeyError, Opaque) as o:
            vague = vague or "loop of %s" % name
            continue
        for env in pts:
            try:
                if ev.pc is not ONE and st.ev(ev.pc, env) == 0:
                    continue
                b = st.ev(g, env) != 0
            except (Undef, KeyError, Opaque) as o:
                vague = vague or "%s: %s" % (name, o)
                continue
            if b == (ev.kind == "reject"):
                return [name], vague
    return [], vague


def conflicts():
    """(model, options, why it conflicts)"""
    d = ["DmosModel", "SubjrejDmosModel", "ZscoringSubjrejDmosModel", "LiveDmosModel"] + MLE_DMOS
    z = ["ZscoringMosModel", "ZscoringSubjrejMosModel", "ZscoringSubjrejDmosModel", "LiveDmosModel"]
    b = [m for m in EVERY if m.startswith("Biasremv")]
    r = [m for m in EVERY if "Subjrej" in m] + ["LeastSquaresModel", "LegacyMaximumLikelihoodEstimationModel"] + MLE + MLE_DMOS
    out = [(m, dict(dscore_mode=True), "differential scoring twice") for m in d]
    out += [(m, dict(zscore_mode=True), "z-scoring twice") for m in z]
    out += [(m, dict(bias_offset=True), "bias removal twice") for m in b]
    out += [(m, dict(subject_rejection=True), "subject rejection not to be combined") for m in r]
    out += [(m, dict(zscore_mode=True), "z-scoring with bias removal") for m in b]
    out += [(m, dict(bias_offset=True), "bias removal with z-scoring") for m in z]
    for m in EVERY:
        out.append((m, dict(zscore_mode=True, bias_offset=True), "z-scoring with bias removal"))
        if "Pearson" not in m and "Spearman" not in m:
            kw = {} if "Subjrej" in m else dict(subject_rejection=True)
            out.append((m, dict(subject_rejection_type="median", **kw), "unknown kind of rejection"))
        if "Subjrej" not in m:
            for t in ("kurtosis", "pearson", "spearman"):
                out.append((m, dict(subject_rejection_type=t), "kind of rejection without rejection"))
                out.append((m, dict(subject_rejection_type=t, subject_rejection=False), "kind of rejection without rejection"))
    out += [(m, dict(gradient_method="steepest"), "unknown gradient method") for m in MLE + MLE_DMOS]
    out += [(m, dict(force_subjbias_zeromean=1), "not a boolean") for m in MLE + MLE_DMOS + PROJECTION + ["LegacyMaximumLikelihoodEstimationModel"]]
    return out


BASE = {
    "list": ([(0, 0, "r0", ["v", "v", "v"]), (1, 0, "p1", ["v", "v", "v"]), (2, 1, "r1", ["v", "v", "v"])], [(0, "r0"), (1, "r1")]),
    "tuple": ([(0, 0, "r0", ("v", "v", "v")), (1, 0, "p1", ("v", "v", "v")), (2, 1, "r1", ("v", "v", "v"))], [(0, "r0"), (1, "r1")]),
    "dict": ([(0, 0, "r0", {"a": "v", "b": "v"}), (1, 0, "p1", {"c": "v", "b": "v"}), (2, 1, "r1", {"a": "v", "c": "v"})], [(0, "r0"), (1, "r1")]),
    "repeated list": ([(0, 0, "r0", ["v", 2, "v"]), (1, 0, "p1", [2, "v", "v"]), (2, 1, "r1", ["v", "v", "v"])], [(0, "r0"), (1, "r1")]),
    "pc": ([(0, 0, "r0", {("zoe", 1): ("k", 1), ("Ann", 1): ("k", 0)}), (1, 0, "b", {("Ann", 2): ("k", 0.5), ("zoe", 2): ("k", 1)}), (2, 1, "r1", {("zoe", 0): ("k", 1)})], [(0, "r0"), (1, "r1")]),
}
READ = {
    "list": ["no_os", "os_number", "os_string", "os_none", "os_set", "os_short", "last_short", "mixed_style", "mixed_style2", "unknown_content", "unknown_content_last", "gap_content", "negative_content", "negative_reference"],
    "tuple": ["no_os", "os_none", "os_short", "unknown_content", "negative_reference"],
    "repeated list": ["no_os", "os_short", "last_short", "unknown_content"],
    "dict": ["no_os", "os_number", "os_none", "mixed_style", "unknown_content", "unknown_content_last", "gap_content", "negative_content", "negative_reference"],
}
PC = ["pc_value", "pc_value_small", "pc_negative", "pc_asset", "pc_asset_negative", "pc_key_name", "pc_key_asset", "pc_unknown_asset", "pc_list", "no_os", "unknown_content"]
DM = [m for m in EVERY if "Dmos" in m]
HALF = [0.5, 0.5, 0.5]
TOPC = {
    "unknown kind of pairs": dict(pc_type="between_subjects"),
    "unknown tie rule": dict(tiebreak_method="random"),
    "rate and rates": dict(sampling_rate=0.5, per_asset_sampling_rates=HALF),
    "coin rate and coin rates": dict(cointoss_rate=0.5, per_asset_cointoss_rates=HALF),
    "noise and noises": dict(noise_level=0.5, per_asset_noise_levels=HALF),
    "negative rate": dict(sampling_rate=-0.5),
    "rate not a number": dict(sampling_rate=HALF),
    "negative rate of one asset": dict(per_asset_sampling_rates=[0.5, 0.5, -0.1]),
    "rates too few": dict(per_asset_sampling_rates=[0.5, 0.5]),
    "rates too many": dict(per_asset_sampling_rates=HALF + [1.0]),
    "coin rate above 1": dict(cointoss_rate=1.5),
    "negative coin rate": dict(cointoss_rate=-0.5),
    "coin rate of one asset above 1": dict(per_asset_cointoss_rates=[0.5, 1.5, 0.5]),
    "negative coin rate of one asset": dict(per_asset_cointoss_rates=[0.5, 0.5, -0.5]),
    "coin rates too few": dict(per_asset_cointoss_rates=[0.5, 0.5]),
    "negative noise": dict(noise_level=-1.0),
    "negative noise of one asset": dict(per_asset_noise_levels=[0.5, 0.5, -0.5]),
    "noises too few": dict(per_asset_noise_levels=[0.5]),
    "means too few": dict(per_asset_mean_scores=[1.0, 2.0]),
    "means too many": dict(per_asset_mean_scores=[1.0, 2.0, 3.0, 4.0]),
    "mean not a number": dict(per_asset_mean_scores=[1.0, [2.0, 3.0], 4.0]),
}


def spoiled(sh, how):
    def f(c):
        ds = ds_of(BASE, sh)(c)
        return c.call(c.get("spec.broken", how), ds) if how else ds
    return f


def val(c, v):
    if isinstance(v, list):
        return lst(c, [val(c, x) if isinstance(x, list) else x for x in v])
    return v if isinstance(v, Val) else K(v)


def sim(c, **over):
    n = dict(quality_scores=3, observer_bias=3, observer_inconsistency=3, content_bias=2, content_ambiguity=2)
    n.update(over)
    return {k: symarr(c, "V", v) for k, v in n.items() if v is not None}


MOCK = {
    "no scores": ("SyntheticRawDatasetReader", lambda c: sim(c, quality_scores=None)),
    "no biases": ("SyntheticRawDatasetReader", lambda c: sim(c, observer_bias=None)),
    "no inconsistencies": ("SyntheticRawDatasetReader", lambda c: sim(c, observer_inconsistency=None)),
    "no content biases": ("SyntheticRawDatasetReader", lambda c: sim(c, content_bias=None)),
    "no ambiguities": ("SyntheticRawDatasetReader", lambda c: sim(c, content_ambiguity=None)),
    "scores too few": ("SyntheticRawDatasetReader", lambda c: sim(c, quality_scores=2)),
    "scores too many": ("SyntheticRawDatasetReader", lambda c: sim(c, quality_scores=4)),
    "inconsistencies too few": ("SyntheticRawDatasetReader", lambda c: sim(c, observer_inconsistency=2)),
    "contents too few": ("SyntheticRawDatasetReader", lambda c: sim(c, content_bias=1, content_ambiguity=1)),
    "contents too many": ("SyntheticRawDatasetReader", lambda c: sim(c, content_bias=3, content_ambiguity=3)),
    "ambiguities too few": ("SyntheticRawDatasetReader", lambda c: sim(c, content_ambiguity=1)),
    "quality ambiguities too few": ("SyntheticRawDatasetReader", lambda c: dict(sim(c), quality_ambiguity=symarr(c, "V", 2))),
    "seed not a number": ("SyntheticRawDatasetReader", lambda c: dict(sim(c), seed=K("x"))),
    "logistic with quality ambiguity": ("SyntheticLogisticRawDatasetReader", lambda c: dict(sim(c), quality_ambiguity=symarr(c, "V", 3))),
    "no missing probability": ("MissingDataRawDatasetReader", lambda c: dict(seed=K(1))),
    "no corrupt probability": ("CorruptDataRawDatasetReader", lambda c: {}),
    "no subjects": ("SelectSubjectRawDatasetReader", lambda c: {}),
    "unknown subject": ("SelectSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [0, 3]))),
    "negative subject": ("SelectSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [-1]))),
    "no stimuli": ("SelectDisVideoRawDatasetReader", lambda c: {}),
    "unknown stimulus": ("SelectDisVideoRawDatasetReader", lambda c: dict(selected_dis_videos=lst(c, [0, 3]))),
    "no subjects to corrupt": ("CorruptSubjectRawDatasetReader", lambda c: dict(corrupt_behavior=K("flip"))),
    "unknown subject to corrupt": ("CorruptSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [3]))),
    "negative subject to corrupt": ("CorruptSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [-1]))),
    "subject to corrupt twice": ("CorruptSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [1, 0, 1]))),
    "unknown corruption": ("CorruptSubjectRawDatasetReader", lambda c: dict(selected_subjects=lst(c, [1]), corrupt_behavior=K("scale"))),
}


def tasks(tier):
    out = []
    ms = model_scenes(tier, small=True)
    vs = vscenes(tier)
    for m in EVERY:
        def g(rep, m=m):
            for mm, kw, why in conflicts():
                if mm != m:
                    continue
                k2 = {k: K(v) for k, v in kw.items()}
                if m in MLE + MLE_DMOS:
                    k2.update(mle_kw())
                refused(rep, "%s(%s): %s" % (m, ", ".join("%s=%s" % x for x in kw.items()), why), model_run(m, k2), ms)
        out.append(("options/" + m, g))
    for m in ("LeastSquaresModel", "LegacyMaximumLikelihoodEstimationModel"):
        out.append(("repetitions/" + m, lambda rep, m=m: refused(rep, "%s on repeated votes" % m, model_run(m), [s for s in model_scenes(tier, reps=(2, 3), small=True)])))
    for sh, hows in READ.items():
        for how in hows:
            for m in (None, "MosModel"):
                def g(rep, sh=sh, how=how, m=m):
                    def f(c, ds):
                        r = reader()(c, ds)
                        return c.attr(r, "opinion_score_3darray") if m is None else c.call(c.attr(c.call(c.get(SM, m), r), "run_modeling"))
                    oid = "%s of a %s dataset, spoiled: %s" % ("votes" if m is None else m, sh, how)
                    refused(rep, oid, run_on(oid, spoiled(sh, how), f), vs)
                out.append(("read/%s/%s/%s" % (sh, how, m), g))
    for how in PC:
        def g(rep, how=how):
            oid = "paired comparison votes, spoiled: %s" % how
            refused(rep, oid, run_on(oid, spoiled("pc", how), lambda c, ds: c.attr(reader("PairedCompDatasetReader")(c, ds), "opinion_score_3darray")), vs)
        out.append(("pc read/" + how, g))
    for m in DM:
        for how in ("no_ref_score", "second_reference", "no_reference"):
            for sh in ("list", "dict"):
                def g(rep, m=m, how=how, sh=sh):
                    oid = "%s of a %s dataset, spoiled: %s" % (m, sh, how)
                    kw = mle_kw() if m in MLE_DMOS else {}
                    refused(rep, oid, run_on(oid, spoiled(sh, how), lambda c, ds: c.call(c.attr(c.call(c.get(SM, m), reader()(c, ds)), "run_modeling"), **kw)), vs)
                out.append(("differential/%s/%s/%s" % (m, how, sh), g))
    for sh in ("list", "dict"):
        for nm, kw in TOPC.items():
            def g(rep, sh=sh, nm=nm, kw=kw):
                oid = "paired comparisons of a %s dataset: %s" % (sh, nm)
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), lambda c, ds: call(c, reader()(c, ds), "to_pc_dataset", **{k: val(c, v) for k, v in kw.items()})), vs)
            out.append(("to_pc/%s/%s" % (sh, nm), g))
        for n in (2, 4):
            def g(rep, sh=sh, n=n):
                oid = "aggregated export of a %s dataset, %d scores for 3 stimuli" % (sh, n)
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), lambda c, ds: call(c, reader()(c, ds), "to_aggregated_dataset", symlist(c, "V", n))), vs)
                oid = "aggregated export of a %s dataset, %d deviations for 3 stimuli" % (sh, n)
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), lambda c, ds: call(c, reader()(c, ds), "to_aggregated_dataset", symlist(c, "V", 3), scores_std=symlist(c, "W", n))), vs)
            out.append(("aggregated/%s/%d" % (sh, n), g))

            def g(rep, sh=sh, n=n):
                k = n if sh == "list" else n - 1
                oid = "per-subject export of a %s dataset, %d scores for the %d subjects of a stimulus" % (sh, k, 3 if sh == "list" else 2)
                rows = [3 if sh == "list" else 2] * 3
                rows[n // 2] = k
                f = lambda c, ds: call(c, reader()(c, ds), "to_persubject_dataset", lst(c, [val(c, [1.0 + i for i in range(m)]) for m in rows]))
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), f), vs)
            out.append(("per-subject/%s/%d" % (sh, n), g))
        for m in ("MosModel", "SubjectMLEModelProjectionSolver2", "PerSubjectModel", "MaximumLikelihoodEstimationModel"):
            def g(rep, sh=sh, m=m):
                oid = "export of %s of a %s dataset before modelling" % (m, sh)
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), lambda c, ds: call(c, c.call(c.get(SM, m), reader()(c, ds)), "to_aggregated_dataset")), vs)
            out.append(("unmodelled/%s/%s" % (sh, m), g))
        for nm, (cls, mk) in MOCK.items():
            def g(rep, sh=sh, nm=nm, cls=cls, mk=mk):
                oid = "%s of a %s dataset: %s" % (cls, sh, nm)
                refused(rep, oid, run_on(oid, ds_of(BASE, sh), lambda c, ds: c.attr(reader(cls, input_dict=dct(c, **mk(c)))(c, ds), "opinion_score_3darray")), vs)
            out.append(("mock/%s/%s" % (sh, nm), g))
    return out
