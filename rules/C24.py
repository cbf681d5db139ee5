"""Paired comparisons: ingestion and estimators."""
from rules.exports import *
from sa.evalt import Undef

RULE = ("Value-graph equivalence of the comparison array and of the Bradley-Terry and Thurstone estimates with their declared definitions (win counts, "
        "fixed-point iteration, objective handed to the minimiser, bordered information matrix); relations between estimators and between a dataset and its mirror image.")

PCM = "sureal.pc_subjective_model"
BT, NR, TH = "BradleyTerryMlePairedCompSubjectiveModel", "BradleyTerryNewtonRaphsonPairedCompSubjectiveModel", "ThurstoneMlePairedCompSubjectiveModel"


def full(n, subj, order=None, skip=()):
    """every subject compares every pair (i<j), recorded at i or j in turn"""
    aid = order or list(range(n))
    dis = [(aid[i], i % 2, "r%d" % i if i < 2 else "p%d" % i, {}) for i in range(n)]
    k = 0
    for s in subj:
        for i in range(n):
            for j in range(i):
                k += 1
                if (s, i, j) in skip:
                    continue
                a, b = (i, j) if k % 3 else (j, i)
                dis[a][3][(s, aid[b])] = "v"
    return dis, [(0, "r0"), (1, "r1")]


SHAPES24 = {
    "3 stimuli": full(3, ["zoe", "Ann", "bob"]),
    "unordered assets": full(3, ["zoe", "Ann", "bob"], [2, 0, 1]),
    "4 stimuli": full(4, ["b", "a", "c"], [3, 1, 0, 2]),
    "incomplete": full(4, ["b", "a", "d"], [0, 2, 1, 3], {("b", 3, 1), ("a", 2, 0), ("d", 1, 0), ("d", 3, 0)}),
}
BIG = {"5 stimuli": full(5, ["b", "a", "d", "c", "x", "y"], [4, 2, 0, 1, 3])}


class PScene(VScene):
    """comparisons with results 0, 1/2 and 1; every stimulus wins and loses"""

    def tables(self):
        seed, g = self.seed, self.grid

        def v(st, e, s, r=0):
            x = u(seed, "pc", e, s)
            return (0, 0.5, 1)[int(3 * x)] if g else (0, 1)[int(2 * x)]
        t = {"V": v, "W": v, "optok": lambda st, *a: 1}
        t.update(self.extra)
        return t


def pscenes(tier):
    return [PScene("results/%d" % i, 20 + i, grid=i % 2) for i in range(4 if tier == "quick" else 12)]


def model(cls, **kw):
    return lambda c, ds: c.call(c.attr(c.call(c.get(PCM, cls), reader("PairedCompDatasetReader")(c, ds)), "run_modeling"), **{k: K(v) for k, v in kw.items()})


def connected(sc, shape):
    """every proper set of stimuli is beaten by another: the estimates exist"""
    dis = shape[0]
    pos = {d[0]: i for i, d in enumerate(dis)}
    n = len(dis)
    beat = [[False] * n for _ in range(n)]
    t = sc.tables()
    for i, d in enumerate(dis):
        for q, (s, a) in enumerate(d[3]):
            v = t["V"](None, i, q)
            j = pos[a]
            if v > 0:
                beat[i][j] = True
            if v < 1:
                beat[j][i] = True
    for k in range(n):
        for i in range(n):
            for j in range(n):
                beat[i][j] = beat[i][j] or (beat[i][k] and beat[k][j])
    return all(beat[i][j] for i in range(n) for j in range(n) if i != j)


def usable(tier, shape):
    out = [s for s in pscenes(tier) if connected(s, shape)]
    i = 100
    while len(out) < 3 and i < 200:
        s = PScene("results/%d" % i, i, grid=1)
        if connected(s, shape):
            out.append(s)
        i += 1
    return out


def relate(rep, oid, ra, rb, scenes, f, tol=1e-4):
    """f(scores of ra, scores of rb) -> pairs that must be equal"""
    for r in (ra, rb):
        if not entry_ok(rep, oid, r):
            return
    n, why = 0, ""
    for sc in scenes:
        try:
            x, y = (D.den(r.c, r.c.st, r.outputs()["quality_scores"][0], sc.structure(r)) for r in (ra, rb))
        except (Opaque, KeyError) as o:
            why = str(o)
            continue
        rep.scenes.add(sc.name)
        if any(v is UND or v is MISS for v in list(x) + list(y)):
            why = "undefined scores"
            continue
        for a, b in zip(*f([float(v) for v in x], [float(v) for v in y])):
            if abs(a - b) > tol * max(1, abs(a), abs(b)):
                rep.add(oid, "violated", "in structure %s: %s against %s" % (sc.name, short(a), short(b)), ra.name)
                return
        n += 1
    rep.add(oid, "agreed" if n else "inconclusive", "%d structures" % n if n else why, ra.name)


def either(rep, sh, r, specs, keys, main, known, sc):
    """outputs equal the first definition, or the second one, which is the known finding (reported once, under its own name)"""
    if not entry_ok(rep, r.name, r) or not all(s.ok for s in specs):
        return
    oa = r.outputs()
    for k in keys:
        sub = [Report(rep.pid, rep.tier, rep.seed) for _ in specs]
        for s, q in zip(specs, sub):
            decide_equal(q, "%s[%s]" % (r.name, k), r, oa[k][0] if k in oa else K(None), s, s.outputs()[k][0], sc)
            rep.scenes |= q.scenes
            rep.funcs |= q.funcs
        rep.obs.append(sub[0 if sub[0].obs[0][1] in ("proved", "agreed") else 1].obs[0])
        if k == main and sh == "3 stimuli":
            o = sub[0].obs[0]
            rep.add(known, o[1], o[2], o[3])


def tasks(tier):
    out = []
    shapes = dict(SHAPES24)
    if tier == "thorough":
        shapes.update(BIG)
    for sh, shape in shapes.items():
        mk = ds_of(shapes, sh)

        def g(rep, sh=sh, mk=mk):
            rd = lambda a: lambda c, ds: c.attr(reader("PairedCompDatasetReader")(c, ds), a)
            compare(rep, "comparisons of %s" % sh, mk, rd("opinion_score_3darray"), lambda c, ds: c.call(c.get("spec.pc", "votes"), ds), pscenes(tier))
            compare(rep, "number of subjects of %s" % sh, mk, rd("num_observers"), lambda c, ds: c.call(c.get("spec.pc", "num_subjects"), ds), pscenes(tier))

            def twice(c, ds):
                r = reader("PairedCompDatasetReader")(c, ds)
                c.attr(r, "opinion_score_3darray")
                c.call(c.attr(c.call(c.get(PCM, TH), r), "run_modeling"), zscore_output=K(True))
                return c.attr(r, "opinion_score_3darray")
            compare(rep, "comparisons of %s after modelling" % sh, mk, twice, lambda c, ds: c.call(c.get("spec.pc", "votes"), ds), pscenes(tier))

            def other(c, ds):
                # a reader of another dataset was used before
                c.attr(reader("PairedCompDatasetReader")(c, ds_of(SHAPES24, "unordered assets", "input2", "W")(c)), "opinion_score_3darray")
                return c.attr(reader("PairedCompDatasetReader")(c, ds), "opinion_score_3darray")
            compare(rep, "comparisons of %s after another dataset" % sh, mk, other, lambda c, ds: c.call(c.get("spec.pc", "votes"), ds), pscenes(tier))
        out.append(("read/" + sh, g))

        def g(rep, sh=sh, mk=mk, shape=shape):
            sc = usable(tier, shape)
            r = run_on("%s of %s" % (BT, sh), mk, model(BT))
            if not entry_ok(rep, r.name, r):
                return
            oa = r.outputs()
            spec_ = [run_on("Bradley-Terry of %s, %s" % (sh, q), mk, lambda c, ds, q=q: c.call(c.get("spec.pc", "bt_mle"), ds, K(q))) for q in (True, False)]
            if not all(s.ok for s in spec_):
                rep.add(r.name, "inconclusive", str([s.fail or s.exc for s in spec_]), r.name)
                return
            for k in ("quality_scores", "quality_scores_p"):
                decide_equal(rep, "%s[%s]" % (r.name, k), r, oa[k][0] if k in oa else K(None), spec_[0], spec_[0].outputs()[k][0], sc)
            # the off-diagonal information is n/(p+p)^2; the code has 2n/(p+p) (known finding): anything else is a violation of its own
            either(rep, sh, r, spec_, ("quality_scores_std", "quality_scores_p_std", "quality_scores_ci95", "quality_scores_p_cov", "quality_scores_v_cov"),
                   "quality_scores_p_cov", "Bradley-Terry-information-matrix", sc)
            returns(rep, r.name, r, sc)
        out.append(("bradley-terry/" + sh, g))

        def g(rep, sh=sh, mk=mk, shape=shape):
            sc = usable(tier, shape)
            r = run_on("%s of %s, exact information" % (TH, sh), mk, model(TH, use_simplified_lbda=False))
            either(rep, sh, r, [run_on("Thurstone of %s, exact %s" % (sh, q), mk, lambda c, ds, q=q: c.call(c.get("spec.pc", "thurstone"), ds, K(False), K(q))) for q in (True, False)],
                   ("quality_scores_std", "quality_scores_ci95"), "quality_scores_std", "Thurstone-information-matrix", sc)
            for z in (False, True):
                ra = run_on("%s of %s, zscore_output=%s" % (TH, sh, z), mk, model(TH, **({"zscore_output": True} if z else {})))
                rb = run_on("Thurstone of %s, %s" % (sh, z), mk, lambda c, ds: c.call(c.get("spec.pc", "thurstone"), ds, K(z)))
                compare_outputs(rep, ra.name, ra, rb, ("quality_scores", "quality_scores_std", "quality_scores_ci95"), sc)
        out.append(("thurstone/" + sh, g))

        def g(rep, sh=sh, mk=mk, shape=shape):
            sc = usable(tier, shape)
            a = run_on("%s of %s" % (BT, sh), mk, model(BT))
            b = run_on("%s of %s" % (NR, sh), mk, model(NR))
            z = run_on("%s of %s, z-scored" % (NR, sh), mk, model(NR, zscore_output=True))
            relate(rep, "Newton-Raphson and fixed-point Bradley-Terry scores of %s agree, last score 0" % sh, b, a, sc, lambda x, y: (x, [v - y[-1] for v in y]))

            def zs(x, y):
                m = sum(y) / len(y)
                sd = (sum((v - m) ** 2 for v in y) / len(y)) ** 0.5
                return x, [(v - m) / sd for v in y]
            relate(rep, "z-scored Bradley-Terry scores of %s" % sh, z, b, sc, zs)
            returns(rep, b.name, b, sc)
            for cls in (BT, NR):
                m = run_on("%s of mirrored %s" % (cls, sh), lambda c: c.call(c.get("spec.pc", "mirrored"), mk(c)), model(cls))
                relate(rep, "%s: scores of mirrored %s are mirrored" % (cls, sh), m, run_on("%s of %s" % (cls, sh), mk, model(cls)), sc,
                       lambda x, y: ([v - x[0] for v in x], [y[0] - v for v in y]))
        out.append(("relations/" + sh, g))
    return out
