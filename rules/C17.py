"""Inputs are left as they were."""
from rules.exports import *
from rules.C23 import PCS, OPTS as PCOPTS, CHANCE, args as pcargs
from rules import C20, C21, C22

RULE = ("Heap comparison: the content of every dataset, option dictionary, list and array reachable from the caller, as it stands after the "
        "analysed call, has the same normal form (or the same denotation in every structure) as before the call.")


def unchanged(rep, oid, make, f, scenes):
    """make(c) -> value holding every input; f(c, inputs) the call"""
    snap = {}

    def go(c, inp):
        snap["st"] = c.st.copy()
        return f(c, inp)
    r = run_on("inputs after " + oid, make, go)
    rep.funcs |= set(r.functions())
    if "st" not in snap:
        rep.add(oid, "inconclusive", r.fail or "input not built", r.name)
        return
    if r.fail:
        rep.add(oid, "inconclusive", r.fail, r.name)
        return
    before, after = snap["st"], r.c.st
    n, why = 0, ""
    for sc in scenes:
        s = sc.structure(r)
        try:
            x = D.den(r.c, before, r.ds, s)
            y = D.den(r.c, after, r.ds, s)
        except Opaque as o:
            why = str(o)
            continue
        rep.scenes.add(sc.name)
        d = D.diff_den(y, x)
        if d is not None:
            rep.add(oid, "violated", "structure %s: the input at %s is %s after the call, it was %s" % (sc.name, D.named(d[0]) or "value", short(d[1]), short(d[2])), r.name)
            return
        n += 1
    rep.add(oid, "agreed" if n else "inconclusive", "%d structures" % n if n else why, r.name)


def bundle(c, **kw):
    return c.alloc(InstC(Ext("inputs"), kw))


def opt(c, names=("p0", "p1", "p2")):
    return c.alloc(DictC([Ent((), ONE, K(n), N(T.sym("t_" + n), ZERO)) for n in names]), owner="input.arg")


MODELS = {"plain": {}, "normalised": dict(normalize_final=True), "transformed": dict(transform_final=opt),
          "transformed/p1": dict(transform_final=lambda c: opt(c, ("p1",))), "transformed/p0 p2": dict(transform_final=lambda c: opt(c, ("p0", "p2"))),
          "both": dict(normalize_final=False, transform_final=lambda c: opt(c, ("p2",)))}
SMALL = ["list ragged", "dict ragged"]


def model_task(m, style, votes, tag, kw):
    def g(rep, tier):
        def make(c):
            ds = c.dataset(style, votes, inst_attrs={"ref_score": N(T.sym("refscore"))})
            return bundle(c, ds=ds, **{k: v(c) for k, v in kw.items() if callable(v)})

        def f(c, b):
            k2 = {k: c.attr(b, k) if callable(v) else K(v) for k, v in kw.items()}
            if m in MLE + MLE_DMOS:
                k2.update(mle_kw())
            mod = c.call(c.get(SM, m), reader()(c, c.attr(b, "ds")))
            return c.call(c.attr(mod, "run_modeling"), **k2)
        ex = {"t_p0": lambda st: 0.5, "t_p1": lambda st: 1.5, "t_p2": lambda st: -0.25, "delta_thr": lambda st: 0.02}
        sc = [DScene(s.name, s.sizes["E"], s.sizes["S"], s.sizes["R"], s.sizes["C"], s.seed, s.p, ex) for s in dscenes(tier)]
        unchanged(rep, "%s on a %s-style dataset, %s votes, %s" % (m, style, votes, tag), make, f, sc)
    return g


def tasks(tier):
    out = []
    every = list(MOS_FAMILY) + ["LiveDmosModel", "LegacyMaximumLikelihoodEstimationModel", "LeastSquaresModel", "PerSubjectModel"] + PROJECTION + MLE + MLE_DMOS
    for m in every:
        for style, votes in (("list", "scalar"), ("list", "reps"), ("dict", "scalar"), ("dict", "reps")):
            for tag, kw in MODELS.items():
                if tag != "plain" and (style, votes) != ("list", "scalar") and tier == "quick":
                    continue
                if tier == "quick" and m not in ("MosModel", "DmosModel", "SubjrejMosModel", "SubjectMLEModelProjectionSolver2", "PerSubjectModel", "MaximumLikelihoodEstimationModel") and tag in ("transformed/p1", "transformed/p0 p2", "both"):
                    continue
                out.append(("%s/%s/%s/%s" % (m, style, votes, tag), lambda rep, g=model_task(m, style, votes, tag, kw): g(rep, tier)))
    vs = vscenes(tier)
    for sh in SHAPES:
        n = len(SHAPES[sh][0])
        for sn, mk in (("list", symlist), ("array", symarr)):
            for on, (ko, _) in C20.OPTS.items():
                def g(rep, sh=sh, n=n, sn=sn, mk=mk, on=on, ko=ko):
                    def make(c):
                        return bundle(c, ds=ds_of(SHAPES, sh)(c), scores=mk(c, "V", n), **C20.args(c, ko, n, mk))
                    unchanged(rep, "aggregated export of %s, %s scores, %s" % (sh, sn, on), make,
                              lambda c, b: call(c, reader()(c, c.attr(b, "ds")), "to_aggregated_dataset", c.attr(b, "scores"), **{k: c.attr(b, k) for k in ko}), vs)
                out.append(("aggregated/%s/%s/%s" % (sh, sn, on), g))

        def g(rep, sh=sh):
            unchanged(rep, "dictionary-style export of %s" % sh, ds_of(SHAPES, sh), lambda c, ds: call(c, reader()(c, ds), "to_dictionary_style_dataset"), vs)
        out.append(("dictionary/%s" % sh, g))

        def g(rep, sh=sh):
            unchanged(rep, "reading of %s" % sh, ds_of(SHAPES, sh), lambda c, ds: [c.attr(reader()(c, ds), a) for a in
                      ("opinion_score_3darray", "num_observers", "disvideo_is_refvideo", "content_id_of_dis_videos")][0], vs)
        out.append(("read/%s" % sh, g))
        second = dict(SHAPES, **C22.SECOND)
        for b in second:
            def g(rep, sh=sh, b=b):
                unchanged(rep, "%s combined with %s" % (sh, b), lambda c: bundle(c, a=ds_of(SHAPES, sh)(c), b=ds_of(second, b, "input2", "W")(c)),
                          lambda c, p: call(c, reader()(c, c.attr(p, "a")), "to_combined_overlap_dataset", reader()(c, c.attr(p, "b"))), vs)
            out.append(("combined/%s/%s" % (sh, b), g))
    for sh in C21.PS:
        def g(rep, sh=sh):
            rows = C21.cells(sh)
            unchanged(rep, "per-subject export of %s" % sh, lambda c: bundle(c, ds=ds_of(C21.PS, sh)(c), scores=C21.scores(c, rows, "list")),
                      lambda c, b: call(c, reader()(c, c.attr(b, "ds")), "to_persubject_dataset", c.attr(b, "scores")), vs)
        out.append(("per-subject/%s" % sh, g))
    for sh in PCS:
        n = len(PCS[sh][0])
        opts = {k: v[0] for k, v in PCOPTS.items()}
        opts.update(CHANCE)
        for on, ko in opts.items():
            def g(rep, sh=sh, n=n, on=on, ko=ko):
                unchanged(rep, "paired comparisons of %s, %s" % (sh, on), lambda c: bundle(c, ds=ds_of(PCS, sh)(c), **pcargs(c, ko, n)),
                          lambda c, b: call(c, reader()(c, c.attr(b, "ds")), "to_pc_dataset", **{k: c.attr(b, k) for k in ko}), vs)
            out.append(("pc/%s/%s" % (sh, on), g))
    return out
