"""Same votes, same results."""
from rules.exports import *

RULE = ("Dependence analysis: outputs interpreted in structures that differ only in the clock, the entropy source and the iteration order of "
        "hash sets must be equal; and the outputs of a call made after other calls (same object, same reader, other options, other dataset) "
        "must be those of the same call made first.")

EVERY = list(MOS_FAMILY) + ["LiveDmosModel", "LegacyMaximumLikelihoodEstimationModel", "LeastSquaresModel", "PerSubjectModel"] + PROJECTION + MLE + MLE_DMOS
EX = {"t_p0": lambda st: 0.5, "t_p1": lambda st: 1.5, "t_p2": lambda st: -0.25, "delta_thr": lambda st: 0.02}


def dsc(tier):
    return [DScene(s.name, s.sizes["E"], s.sizes["S"], s.sizes["R"], s.sizes["C"], s.seed, s.p, EX) for s in dscenes(tier)]


def world(sc, run, w):
    st = sc.new_structure(run)
    st.world = w
    st.tables["entropy"] = lambda s: 17 if w else 5
    st.tables["clock"] = lambda s, n, *k: (0.001 if not w else 1000.0) * float(n) + sum((0.0001 if not w else 60.0) * float(x) for x in k)
    return st


def worlds(rep, oid, ra, rb, scenes):
    """ra and rb: the same call (rb analysed with the other hash order); both worlds must agree"""
    if not entry_ok(rep, oid, ra) or not rb.ok:
        return
    seen = sorted(set("%s %s" % (e.kind, e.data[0]) for e in ra.c.I.events if e.kind in ("nondet", "random", "set_iter")))
    if not seen and ra is rb:
        try:
            D.den(ra.c, ra.c.st, ra.val, scenes[0].structure(ra))
            rep.add(oid, "proved", "no clock, entropy source or hash order is read on any path analysed", ra.name)
            return
        except Opaque:
            pass
    n, why = 0, ""
    for sc in scenes:
        try:
            x = D.den(ra.c, ra.c.st, ra.val, world(sc, ra, ""))
            y = D.den(rb.c, rb.c.st, rb.val, world(sc, rb, "other"))
        except Opaque as o:
            why = str(o)
            continue
        rep.scenes.add(sc.name)
        d = D.diff_den(x, y)
        if d is not None and not (stable(ra, ra.val, lambda: world(sc, ra, "")) and stable(rb, rb.val, lambda: world(sc, rb, "other"))):
            why = "an iteration that does not settle in structure %s" % sc.name
            continue
        if d is not None:
            rep.add(oid, "violated", "structure %s: at %s the result is %s or %s, depending on clock, entropy or hash order" % (sc.name, D.named(d[0]) or "value", short(d[1]), short(d[2])), ra.name)
            return
        n += 1
    rep.add(oid, "agreed" if n else "inconclusive", "%d structures" % n if n else why, ra.name)


def run_w(name, make, f, order):
    def go():
        r = Run(name)
        r.c.I.hash_order = order

        def g(c):
            r.ds = make(c)
            return f(c, r.ds)
        return r.finish(g)
    return cached(("world", name, order), go)


def modelling(m, **kw):
    def f(c, ds):
        k2 = dict(kw)
        if m in MLE + MLE_DMOS:
            k2.update(mle_kw())
        return c.call(c.attr(c.call(c.get(SM, m), reader()(c, ds)), "run_modeling"), **{k: kwval(c, v) for k, v in k2.items()})
    return f


def kws(m):
    return mle_kw() if m in MLE + MLE_DMOS else {}


def again(c, m, rd, **kw):
    k2 = dict(kw, **kws(m))
    mo = c.call(c.get(SM, m), rd)
    return mo, c.call(c.attr(mo, "run_modeling"), **{k: kwval(c, v) for k, v in k2.items()})


def tf(c):
    return c.alloc(DictC([Ent((), ONE, K(n), N(T.sym("t_" + n), ZERO)) for n in ("p0", "p1", "p2")]))


def h_same_object(c, ds, m):
    mo, _ = again(c, m, reader()(c, ds))
    return c.call(c.attr(mo, "run_modeling"), **kws(m))


def h_same_reader(c, ds, m):
    rd = reader()(c, ds)
    again(c, "MosModel", rd)
    again(c, "SubjrejMosModel", rd)
    again(c, m, rd)
    return again(c, m, rd)[1]


def h_other_options(c, ds, m):
    rd = reader()(c, ds)
    mo, _ = again(c, m, rd, normalize_final=True, transform_final=tf)
    return c.call(c.attr(mo, "run_modeling"), **kws(m))


def h_other_dataset(c, ds, m):
    other = ds_of(SHAPES, "list ragged", "input2", "W")(c)
    c.attr(reader()(c, other), "opinion_score_3darray")
    again(c, m if m in ("DmosModel", "ZscoringMosModel", "BiasremvMosModel", "PerSubjectModel") else "MosModel", reader()(c, other))
    return again(c, m, reader()(c, ds))[1]


def h_after_exports(c, ds, m):
    rd = reader()(c, ds)
    sc = c.arr("Q", E)
    call(c, rd, "to_aggregated_dataset", sc)
    mo, _ = again(c, "MosModel", rd)
    call(c, mo, "to_aggregated_dataset")
    return again(c, m, rd)[1]


def h_selected(c, ds, m):
    sel = lambda k, xs: c.alloc(DictC([Ent((), ONE, K(k), lst(c, xs))]))
    for cls, d in (("SelectDisVideoRawDatasetReader", sel("selected_dis_videos", [0])), ("SelectSubjectRawDatasetReader", sel("selected_subjects", [0]))):
        rd = reader(cls, input_dict=d)(c, ds)
        c.attr(rd, "opinion_score_3darray")
        again(c, "MosModel", rd)
    return again(c, m, reader()(c, ds))[1]


# asset ids are positions, as the reader of selected stimuli requires
PARTS = {"list": ([(0, 0, "r0", ["v", 2, "v"]), (1, 0, "p1", [3, "v", ("t", 2)]), (2, 1, "r1", [None, "v", 1])], [(0, "r0"), (1, "r1")]),
         "dict": ([(0, 0, "r0", {"zoe": "v", "Ann": 2}), (1, 1, "x", {"bob": ("t", 3), "Ann": "v"}), (2, 1, "r1", {"al": 1, "zoe": 2, "bob": "v"})], [(0, "r0"), (1, "r1")])}
SLOW = ["LegacyMaximumLikelihoodEstimationModel", "MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection"]
ONCE = ["MaximumLikelihoodEstimationModel", "LegacyMaximumLikelihoodEstimationModel"]
HISTORIES = {"the same model run again": h_same_object, "other models on the same reader first": h_same_reader, "other options first": h_other_options,
             "another dataset first": h_other_dataset, "exports first": h_after_exports}


def tasks(tier):
    out = []
    styles = (("list", "scalar"), ("list", "reps"), ("dict", "scalar"), ("dict", "reps"))
    for m in EVERY:
        heavy = m in MLE + MLE_DMOS
        for style, votes in styles:
            if (heavy or m in SLOW) and tier == "quick" and (style, votes) != ("list", "scalar"):
                continue

            def g(rep, m=m, style=style, votes=votes):
                oid = "%s on a %s-style dataset, %s votes" % (m, style, votes)
                mk = sym(style, votes, inst_attrs={"ref_score": N(T.sym("refscore"))})
                r = run_w(oid, mk, modelling(m), 0)
                worlds(rep, oid, r, r, dsc(tier))
            out.append(("world/%s/%s/%s" % (m, style, votes), g))
        for hn, h in HISTORIES.items():
            if tier == "quick" and (heavy or m in SLOW) and hn != "the same model run again":
                continue
            if tier == "quick" and (heavy or m in SLOW) and m not in ONCE:
                continue
            for style, votes in (styles if tier == "thorough" else styles[:1] if m in PROJECTION + MLE + MLE_DMOS + SLOW else (styles[0], styles[3])):
                def g(rep, m=m, hn=hn, h=h, style=style, votes=votes):
                    oid = "%s on a %s-style dataset, %s votes: %s" % (m, style, votes, hn)
                    mk = sym(style, votes, inst_attrs={"ref_score": N(T.sym("refscore"))})
                    a = run_on("fresh " + oid, mk, modelling(m))
                    b = run_on(oid, mk, lambda c, ds: h(c, ds, m))
                    value_equal(rep, oid, b, a, dsc(tier))
                out.append(("history/%s/%s/%s" % (m, hn, style + votes), g))
    for sh in PARTS:
        for m in ("MosModel", "BiasremvMosModel", "SubjectMLEModelProjectionSolver2") + (("SubjrejMosModel",) if tier == "thorough" else ()):
            def g(rep, sh=sh, m=m):
                oid = "%s on shape %s: readers of a part of it first" % (m, sh)
                a = run_on("fresh " + oid, ds_of(PARTS, sh), modelling(m))
                b = run_on(oid, ds_of(PARTS, sh), lambda c, ds: h_selected(c, ds, m))
                value_equal(rep, oid, b, a, vscenes(tier))
            out.append(("history/%s/parts/%s" % (m, sh), g))
    for sh in SHAPES:
        if sh == "dict empty stimulus":
            continue
        for m in ("MosModel", "SubjrejMosModel", "SubjectMLEModelProjectionSolver2", "BiasremvMosModel"):
            def g(rep, sh=sh, m=m):
                oid = "%s on shape %s" % (m, sh)
                a, b = (run_w(oid, ds_of(SHAPES, sh), modelling(m), o) for o in (0, 1))
                worlds(rep, oid, a, b, vscenes(tier))
            out.append(("world/%s/%s" % (m, sh), g))
        n = len(SHAPES[sh][0])
        for what, f in (("votes", lambda c, ds: c.attr(reader()(c, ds), "opinion_score_3darray")),
                        ("aggregated", lambda c, ds, n=n: call(c, reader()(c, ds), "to_aggregated_dataset", symlist(c, "V", n))),
                        ("dictionary style", lambda c, ds: call(c, reader()(c, ds), "to_dictionary_style_dataset")),
                        ("combined", lambda c, ds, sh=sh: call(c, reader()(c, ds), "to_combined_overlap_dataset", reader()(c, ds_of(SHAPES, sh, "input2", "W")(c))))):
            def g(rep, sh=sh, what=what, f=f):
                oid = "%s of shape %s" % (what, sh)
                a, b = (run_w(oid, ds_of(SHAPES, sh), f, o) for o in (0, 1))
                worlds(rep, oid, a, b, vscenes(tier))
            out.append(("world/%s/%s" % (what, sh), g))
    return out
