"""The standalone demonstration programs of the recommendations."""
from rules.exports import *
from sa.term import Var
from rules.C17 import unchanged
from rules.C19 import capped

RULE = ("Value-graph equivalence of the iteration (start, update, stopping test) and outputs of the standalone programs with the P.910 procedure, "
        "with the deviation of each score taken from the residues of its own stimulus; of the vote table read with the file's cells.")
DEMOS = {"p910": ("itut_p910_demo.demo_p910", 2), "p913": ("itut_p913_demo.demo", 2), "bt500": ("itur_bt500_demo.demo_bt500", 3)}
KEYS = {"mos_j": "quality_scores", "sos_j": "quality_scores_std", "bias_i": "observer_bias", "inconsistency_i": "observer_inconsistency"}


def demo(name):
    mod, nd = DEMOS[name]

    def go():
        r = Run(mod + ".run_alternating_projection")

        def f(c):
            x = c.arr("X", *(E, S, R)[:nd], miss="prs", owner="input.scores")
            return c.call(c.get(mod, "run_alternating_projection"), x)
        return r.finish(f)
    return cached(("demo", name), go)


def reference(nd):
    def go():
        r = Run("the P.910 procedure")

        def f(c):
            x = c.arr("X", *(E, S, R)[:nd], miss="prs", owner="input.scores")
            return c.call(c.get("spec.iterative", "standalone"), x)
        return r.finish(f)
    return cached(("demo-ref", nd), go)


def scenes(nd, tier):
    return iter_scenes(tier, reps=(1,) if nd == 2 else (1, 2))


ROWS = [[["3.5", "4", "nan"], ["1", "nan", "2"], ["5", "4.25", "0"], ["-1", "7", "6"]],
        [["2", "nan", "1.5"], ["nan", "9", "8"], ["10", "11", "nan"], ["12", "13", "14"]],
        [["nan", "nan", "nan"], ["15", "16", "17"], ["nan", "nan", "18"], ["19", "nan", "nan"]]]
SEP = ["", ""]


def table(name, mats):
    mod, nd = DEMOS[name]
    fn = "read_csv_into_%ddarray" % nd

    def read(c, _):
        rows = []
        for i, m in enumerate(mats):
            rows += ([SEP] if i else []) + m
        c.I.files = {"/data/v.csv": lst(c, [lst(c, [K(x) for x in r]) for r in rows])}
        return c.call(c.get(mod, fn), K("/data/v.csv"))

    def cells(c, _):
        e, s, r = Var("e", T.const(len(mats[0]))), Var("s", T.const(len(mats[0][0]))), Var("r", T.const(len(mats)))
        vs = [e, s] if nd == 2 else [e, s, r]
        val = miss = ZERO
        for i, m in enumerate(mats):
            for j, row in enumerate(m):
                for k, x in enumerate(row):
                    g = T.eq(e, T.const(j)) * T.eq(s, T.const(k)) * (T.eq(r, T.const(i)) if nd == 3 else ONE)
                    if x == "nan":
                        miss = miss + g
                    else:
                        val = val + g * T.lift(float(x))
        return c.alloc(ArrC([Dim([v]) for v in vs], val, miss))
    return read, cells


def tasks(tier):
    out = []
    for name, (mod, nd) in DEMOS.items():
        out.append((name + "/cap", lambda rep, name=name: capped(rep, name, demo(name), 1000)))

        def keep(rep, name=name, mod=mod, nd=nd):
            unchanged(rep, "vote table of " + name, lambda c: c.arr("X", *(E, S, R)[:nd], miss="prs", owner="input.scores"),
                      lambda c, x: c.call(c.get(mod, "run_alternating_projection"), x), scenes(nd, tier))
        out.append((name + "/input", keep))
        for k in range(1, 2 if nd == 2 else 4):
            for e in (4, 1):
                def rd(rep, name=name, k=k, e=e):
                    read, cells = table(name, [m[:e] for m in ROWS[:k]])
                    compare(rep, "votes read by %s from %d matrices of %d rows" % (name, k, e), lambda c: K(None), read, cells, model_scenes("quick")[:1])
                out.append(("%s/read/%d/%d" % (name, k, e), rd))
    for name, (mod, nd) in DEMOS.items():
        def g(rep, name=name, nd=nd):
            compare_outputs(rep, name, demo(name), reference(nd), list(KEYS), scenes(nd, tier))
        out.append((name, g))
    return out
