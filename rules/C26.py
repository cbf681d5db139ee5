"""Readers that simulate, select and corrupt votes."""
from rules.exports import *
from sa.evalt import Undef

RULE = ("Value-graph equivalence of the simulating readers with the declared generative model (the random draws are uninterpreted streams) and of the "
        "selecting readers with the selection; for the corrupting readers, the relation between the corrupted and the original votes evaluated on their "
        "value graphs: unselected subjects and undrawn votes untouched, the others changed as declared, whatever the draws.")

SIZES = [("dataset/1", 4, 3, 1, 1), ("dataset/2", 5, 4, 2, 2), ("dataset/3", 3, 5, 3, 3), ("dataset/full", 4, 4, 2, 4)]


def dct(c, **kw):
    return c.alloc(DictC([Ent((), ONE, K(k), v if isinstance(v, Val) else K(v)) for k, v in kw.items()]), owner="input.arg")


def scenes(tier, p=0.4, plain=False):
    ex = {"p": lambda st: p, "refscore": lambda st: 5}
    if plain:
        ex["aid"] = lambda st, e: e
    if plain == "one":
        # every subject votes once on every stimulus
        pass
    out = [DScene(n, e, s, r, seed=sd, c=2, p=0.3 if "full" not in n else 0.0, tables=ex) for n, e, s, r, sd in SIZES]
    if tier == "thorough":
        out += [DScene("dataset/t%d" % i, 3 + i % 5, 3 + i % 4, 1 + i % 3, c=1 + i % 3, seed=50 + i, p=0.1 * (i % 6), tables=ex) for i in range(12)]
    return out


def inputs(c):
    return dict(quality_scores=c.arr("Q", E), observer_bias=c.arr("B", S), observer_inconsistency=c.arr("SG", S, pos=True),
                content_bias=c.arr("MU", C), content_ambiguity=c.arr("DL", C, pos=True))


def rd(cls, d, attr="opinion_score_3darray"):
    return lambda c, ds: c.attr(reader(cls, input_dict=d(c))(c, ds), attr)


def ds_(style, votes):
    return sym(style, votes, inst_attrs={"ref_score": N(T.sym("refscore"))})


def den_of(rep, r, sc):
    s = sc.structure(r)
    x = D.den(r.c, r.c.st, r.val, s)
    rep.scenes.add(sc.name)
    return x


STYLES = [("list", "scalar"), ("list", "reps"), ("dict", "scalar"), ("dict", "reps")]
SEL = [2, 0]


def flat(a):
    return [x for r in a for x in r if x is not MISS]


def close(a, b):
    if a is MISS or b is MISS:
        return a is b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def rows_equal(a, b):
    return all(close(x, y) for x, y in zip(a, b))


def perm_of(rows, orig):
    rest = list(orig)
    for r in rows:
        for i, o in enumerate(rest):
            if rows_equal(r, o):
                del rest[i]
                break
        else:
            return False
    return True


def corrupted(x, y, behave, prob, p):
    """x: original votes, y: votes of the corrupting reader (stimulus, subject, repetition); description of a breach or None"""
    votes = [v for a in x for r in a for v in r if v is not MISS]
    lo, hi = min(votes), max(votes)
    for e in range(len(x)):
        for s in range(len(x[0])):
            if s not in SEL and not rows_equal(x[e][s], y[e][s]):
                return "votes of subject %d, who is not selected, changed from %s to %s at stimulus %d" % (s, short(x[e][s]), short(y[e][s]), e)
    for s in SEL:
        if behave == "shuffle":
            if not perm_of([y[e][s] for e in range(len(x))], [x[e][s] for e in range(len(x))]):
                return "votes of selected subject %d are not a permutation of its votes" % s
            if prob and p == 0 and not all(rows_equal(x[e][s], y[e][s]) for e in range(len(x))):
                return "subject %d shuffled at probability 0" % s
            continue
        const = None
        for e in range(len(x)):
            same = rows_equal(x[e][s], y[e][s])
            if behave == "flip":
                want = [MISS if v is MISS else hi + lo - v for v in x[e][s]]
            elif behave == "constant":
                want = y[e][s]
                if not same:
                    if any(v is MISS for v in want) or not (lo - 1e-9 <= want[0] <= hi + 1e-9):
                        return "subject %d, stimulus %d: %s is outside the range of votes" % (s, e, short(want))
                    if const is None:
                        const = want[0]
                    if not all(close(v, const) for v in want):
                        return "subject %d, stimulus %d: votes %s are not the constant %s" % (s, e, short(want), short(const))
            else:
                v = {"min": lo, "max": hi, "mid": (lo + hi) / 2}[behave]
                want = [v] * len(x[e][s])
            ok = rows_equal(want, y[e][s])
            if prob:
                bad = (not ok and not same) or (p == 0 and not same) or (p == 1 and not ok)
            else:
                bad = not ok
            if behave == "constant" and same and (not prob or p == 1) and any(v is not MISS for v in x[e][s]):
                bad = True
            if bad:
                return "selected subject %d, stimulus %d: votes %s become %s (%s)" % (s, e, short(x[e][s]), short(y[e][s]), behave)
    return None


def missing(x, y, p):
    gone = left = 0
    for e in range(len(x)):
        for s in range(len(x[0])):
            for r in range(len(x[0][0])):
                a, b = x[e][s][r], y[e][s][r]
                if a is MISS:
                    if b is not MISS:
                        return "a vote not cast becomes %s" % short(b)
                elif b is MISS:
                    gone += 1
                elif not close(a, b):
                    return "vote %s becomes %s" % (short(a), short(b))
                else:
                    left += 1
    if p == 0 and gone:
        return "%d votes missing at probability 0" % gone
    if p == 1 and left:
        return "%d votes left at probability 1" % left
    return None


def noisy(x, y, p):
    for e in range(len(x)):
        for s in range(len(x[0])):
            for r in range(len(x[0][0])):
                a, b = x[e][s][r], y[e][s][r]
                if close(a, b) and not (p == 1 and a is MISS):
                    continue
                if p == 0:
                    return "vote %s becomes %s at probability 0" % (short(a), short(b))
                if b is MISS or not (1 - 1e-9 <= b <= 5 + 1e-9):
                    return "corrupted vote %s is outside [1, ref_score]" % short(b)
    return None


def relation(rep, oid, style, votes, cls, d, rel, tier, ps):
    ra = run_on(oid, ds_(style, votes), rd(cls, d))
    rb = run_on("votes of the baseline %s %s" % (style, votes), ds_(style, votes), lambda c, ds: c.attr(reader()(c, ds), "opinion_score_3darray"))
    if not entry_ok(rep, oid, ra) or not rb.ok:
        return
    n, why = 0, ""
    for p in ps:
        for sc in scenes(tier, p):
            try:
                y, x = den_of(rep, ra, sc), den_of(rep, rb, sc)
            except (Opaque, Undef) as o:
                why = str(o)
                continue
            if any(v is UND for a in x + y for r in a for v in r):
                why = "undefined votes"
                continue
            try:
                w = "shape %s" % short(y) if len(x) != len(y) or len(x[0]) != len(y[0]) or len(x[0][0]) != len(y[0][0]) else rel(x, y, p)
            except TypeError as o:
                why = "undefined votes"
                continue
            if w:
                rep.add(oid, "violated", "structure %s, probability %s: %s" % (sc.name, p, w), ra.name)
                return
            n += 1
    rep.add(oid, "agreed" if n else "inconclusive", "%d structures" % n if n else why, ra.name)
    returns(rep, oid, ra, scenes(tier))


def eq(rep, oid, make, f, g, sc):
    value_equal(rep, oid, run_on(oid, make, f), run_on(oid + " (reference)", make, g), sc)


MODELS = {"MosModel": {}, "SubjrejMosModel": {}, "SubjectMLEModelProjectionSolver2": {}}


def tasks(tier):
    out = []

    def add(name, g):
        out.append((name, g))
    SIM = {
        "no seed": ("SyntheticRawDatasetReader", {}, {}),
        "seed": ("SyntheticRawDatasetReader", dict(seed=3), dict(seed=3)),
        "seed none": ("SyntheticRawDatasetReader", dict(seed=None), {}),
        "ambiguity": ("SyntheticRawDatasetReader", dict(quality_ambiguity=True, seed=3), dict(phi=True, seed=3)),
        "logistic": ("SyntheticLogisticRawDatasetReader", {}, None),
    }
    for nm, (cls, kw, kr) in SIM.items():
        for style, votes in (("list", "scalar"), ("dict", "reps")):
            def g(rep, nm=nm, cls=cls, kw=kw, kr=kr, style=style, votes=votes):
                def d(c):
                    k2 = {k: c.arr("PH", E, pos=True) if k == "quality_ambiguity" else K(v) for k, v in kw.items()}
                    return dct(c, **dict(inputs(c), **k2))

                def ref(c, ds):
                    i = inputs(c)
                    a = [i[k] for k in ("quality_scores", "observer_bias", "observer_inconsistency", "content_bias", "content_ambiguity")]
                    k2 = {} if kr is None else {k: c.arr("PH", E, pos=True) if k == "phi" else K(v) for k, v in kr.items()}
                    return c.call(c.get("spec.simulated", "logistic" if kr is None else "synthetic"), ds, *a, **k2)
                oid = "simulated votes, %s, on a %s-style dataset" % (nm, style)
                eq(rep, oid, ds_(style, votes), rd(cls, d), ref, scenes(tier))
                if nm == "seed":
                    # votes of one reader are the same at every access
                    def twice(c, ds):
                        r = reader(cls, input_dict=d(c))(c, ds)
                        c.attr(r, "opinion_score_3darray")
                        return c.attr(r, "opinion_score_3darray")
                    eq(rep, oid + ", second access", ds_(style, votes), twice, ref, scenes(tier))
            add("simulated/%s/%s" % (nm, style), g)
    for style, votes in STYLES:
        tag = "%s-style dataset, %s votes" % (style, votes)

        def g(rep, style=style, votes=votes, tag=tag):
            for seed in (None, 5):
                relation(rep, "missing votes of a %s, %s" % (tag, "seed" if seed else "no seed"), style, votes, "MissingDataRawDatasetReader",
                         lambda c: dct(c, missing_probability=N(T.sym("p")), **({"seed": seed} if seed else {})), missing, tier, (0.4, 0, 1))
        add("missing/" + tag, g)

        def g(rep, style=style, votes=votes, tag=tag):
            relation(rep, "corrupted votes of a %s" % tag, style, votes, "CorruptDataRawDatasetReader",
                     lambda c: dct(c, corrupt_probability=N(T.sym("p"))), noisy, tier, (0.4, 0, 1))
        add("corrupt/" + tag, g)

        def g(rep, style=style, votes=votes, tag=tag):
            for sel in ([2, 0], [1], [0, 1, 2]):
                d = lambda c: dct(c, selected_subjects=lst(c, sel))
                eq(rep, "subjects %s selected of a %s" % (sel, tag), ds_(style, votes), rd("SelectSubjectRawDatasetReader", d),
                   lambda c, ds: c.call(c.get("spec.simulated", "select_subjects"), ds, lst(c, sel), K(style)), scenes(tier))
                eq(rep, "number of subjects %s selected of a %s" % (sel, tag), ds_(style, votes), rd("SelectSubjectRawDatasetReader", d, "num_observers"),
                   lambda c, ds: K(len(sel)), scenes(tier))
                if sel != [1]:
                    def m(c, ds):
                        mod = c.call(c.get(SM, "MosModel"), reader("SelectSubjectRawDatasetReader", input_dict=d(c))(c, ds))
                        return c.item(c.call(c.attr(mod, "run_modeling")), K("quality_scores"))
                    eq(rep, "mean opinion scores of subjects %s selected of a %s" % (sel, tag), ds_(style, votes), m,
                       lambda c, ds: c.call(c.get("spec.simulated", "select_mos"), ds, lst(c, sel), K(style)), scenes(tier))
        add("subjects/" + tag, g)
        for b in ("shuffle", "flip", "min", "mid", "max", "constant", None):
            def g(rep, style=style, votes=votes, tag=tag, b=b):
                for prob in (False, True):
                    def d(c):
                        kw = {} if b is None else {"corrupt_behavior": b}
                        if prob:
                            kw["corrupt_probability"] = N(T.sym("p"))
                        return dct(c, selected_subjects=lst(c, SEL), **kw)
                    bb = b or "shuffle"
                    relation(rep, "subjects of a %s, %s%s" % (tag, b or "default", ", with a probability" if prob else ""), style, votes, "CorruptSubjectRawDatasetReader",
                             d, lambda x, y, p: corrupted(x, y, bb, prob, p), tier, (0.4, 0, 1) if prob else (0.4,))
            add("corrupt subjects/%s/%s" % (tag, b), g)

    for sh, (dis, refs) in VSHAPES.items():
        for sel in ([2, 0], [1], [0, 1, 2, 3]):
            def g(rep, sh=sh, sel=sel):
                style = "dict" if "dict" in sh else "list"
                d = lambda c: dct(c, selected_dis_videos=lst(c, sel))
                eq(rep, "stimuli %s selected of %s" % (sel, sh), ds_of(VSHAPES, sh), rd("SelectDisVideoRawDatasetReader", d),
                   lambda c, ds: c.call(c.get("spec.simulated", "select_videos"), ds, lst(c, sel), K(style)), vscenes(tier))
                eq(rep, "number of stimuli %s selected of %s" % (sel, sh), ds_of(VSHAPES, sh), rd("SelectDisVideoRawDatasetReader", d, "num_dis_videos"),
                   lambda c, ds: K(len(sel)), vscenes(tier))

                def m(c, ds):
                    mod = c.call(c.get(SM, "MosModel"), reader("SelectDisVideoRawDatasetReader", input_dict=d(c))(c, ds))
                    return c.item(c.call(c.attr(mod, "run_modeling")), K("quality_scores"))
                eq(rep, "mean opinion scores of stimuli %s selected of %s" % (sel, sh), ds_of(VSHAPES, sh), m,
                   lambda c, ds: c.call(c.get("spec.simulated", "select_videos_mos"), ds, lst(c, sel), K(style)), vscenes(tier))
            add("videos/%s/%s" % (sh, sel), g)
    # a dataset written from a simulating reader reads back as the votes simulated
    for sh in VSHAPES:
        for cls, mk in (("MissingDataRawDatasetReader", lambda c: dct(c, missing_probability=N(T.sym("p")), seed=5)),
                        ("SelectSubjectRawDatasetReader", lambda c: dct(c, selected_subjects=lst(c, [1, 0]))),
                        ("SelectSubjectRawDatasetReader", lambda c: dct(c, selected_subjects=lst(c, [1]))),
                        ("CorruptSubjectRawDatasetReader", lambda c: dct(c, selected_subjects=lst(c, [1]), corrupt_behavior="flip")),
                        ("SyntheticRawDatasetReader", lambda c: dct(c, seed=3, quality_scores=symarr(c, "V", 4), **{k: symarr(c, t, 2) for k, t in
                         (("observer_bias", "V"), ("observer_inconsistency", "W"), ("content_bias", "V"), ("content_ambiguity", "W"))}))):
            def g(rep, sh=sh, cls=cls, mk=mk):
                def back(c, ds):
                    nd = call(c, reader(cls, input_dict=mk(c))(c, ds), "to_dataset")
                    return c.attr(reader()(c, nd), "opinion_score_3darray")
                sc = [VScene(v.name, v.seed, v.grid, {"p": lambda st: 0.4}) for v in vscenes(tier)]
                eq(rep, "%s.to_dataset of %s read back" % (cls, sh), ds_of(VSHAPES, sh), back, rd(cls, mk), sc)
            add("to_dataset/%s/%s" % (cls, sh), g)
    return out


VSHAPES = {
    "list": ([(0, 0, "r0", ["v", "v"]), (1, 0, "b", ["v", "v"]), (2, 1, "r1", ["v", "v"]), (3, 1, "d", ["v", "v"])], [(0, "r0"), (1, "r1")]),
    "repeated list": ([(0, 0, "r0", ["v", 2]), (1, 0, "b", [2, "v"]), (2, 1, "r1", [2, 2]), (3, 1, "d", [2, 2])], [(0, "r0"), (1, "r1")]),
    "dict": ([(0, 0, "r0", {"zoe": "v", "Ann": "v"}), (1, 0, "b", {"zoe": "v", "Ann": "v"}), (2, 1, "r1", {"Ann": "v", "zoe": "v"}), (3, 1, "d", {"zoe": "v", "Ann": "v"})], [(0, "r0"), (1, "r1")]),
}
