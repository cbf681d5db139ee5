"""Per-subject and dictionary-style exports."""
from rules.exports import *

RULE = ("Value-graph equivalence of the exported dataset with its declared content: one entry per stimulus and vote cast (per-subject), "
        "or the same votes under generated subject names (dictionary style).")

PS = {
    "list": ([(0, 0, "r0", ["v", "v", "v"]), (4, 1, "p1", ["v", "v", "v"])], [(0, "r0"), (1, "r1")]),
    "tuple": ([(5, 1, "p", ("v", "v")), (3, 0, "r0", ("v", "v"))], [(0, "r0"), (1, "r1")]),
    "dict full": ([(4, 0, "r0", {"zoe": "v", "Ann": "v"}), (2, 1, "x", {"Ann": "v", "zoe": "v"})], [(0, "r0"), (1, "r1")]),
    "dict missing": ([(4, 0, "r0", {"zoe": "v"}), (2, 1, "x", {"bob": "v", "Ann": "v"}), (9, 1, "r1", {"al": "v", "zoe": "v", "bob": "v"})], [(0, "r0"), (1, "r1")]),
}


def cells(sh):
    """what the model hands over: stimulus x subject, missing where a subject did not vote"""
    dis = PS[sh][0]
    if not isinstance(dis[0][3], dict):
        return [["v"] * len(d[3]) for d in dis]
    names = sorted(set(k for d in dis for k in d[3]))
    return [["v" if k in d[3] else None for k in names] for d in dis]


def scores(c, rows, kind):
    def cell(e, s, x):
        return K(float("nan")) if x is None else N(T.app("W", T.const(e), T.const(s), ZERO))
    if kind == "array":
        ev, sv = Var("e", T.const(len(rows))), Var("s", T.const(len(rows[0])))
        m = ZERO
        for e, r in enumerate(rows):
            for s, x in enumerate(r):
                if x is None:
                    m = T.either(m, T.both(T.eq(T.idx(ev), T.const(e)), T.eq(T.idx(sv), T.const(s)))) if hasattr(T, "either") else m
        return c.alloc(ArrC([Dim([ev]), Dim([sv])], T.app("W", T.idx(ev), T.idx(sv), ZERO), m), owner="input.arg")
    return lst(c, [lst(c, [cell(e, s, x) for s, x in enumerate(r)]) for e, r in enumerate(rows)])


def cast(c, rows):
    return lst(c, [lst(c, [N(T.app("W", T.const(e), T.const(s), ZERO)) for s, x in enumerate(r) if x is not None]) for e, r in enumerate(rows)])


def tasks(tier):
    out = []
    for sh in PS:
        rows = cells(sh)
        for kind in ("list", "array"):
            if kind == "array" and any(x is None for r in rows for x in r):
                continue

            def g(rep, sh=sh, rows=rows, kind=kind):
                compare(rep, "per-subject %s, %s of scores" % (sh, kind), ds_of(PS, sh),
                        lambda c, ds: call(c, reader()(c, ds), "to_persubject_dataset", scores(c, rows, kind)),
                        lambda c, ds: c.call(c.get("spec.exports", "persubject"), ds, cast(c, rows)), vscenes(tier))
            out.append(("per-subject/%s/%s" % (sh, kind), g))
    for sh in SHAPES:
        def g(rep, sh=sh):
            fn = "same" if sh.startswith("dict") else "dictionary_style"
            compare(rep, "dictionary style %s" % sh, ds_of(SHAPES, sh),
                    lambda c, ds: call(c, reader()(c, ds), "to_dictionary_style_dataset"),
                    lambda c, ds: c.call(c.get("spec.exports", fn), ds), vscenes(tier))
        out.append(("dictionary/%s" % sh, g))
        if not sh.startswith("dict"):
            def g(rep, sh=sh):
                # the votes read back are the votes of the source
                compare(rep, "votes read back, %s" % sh, ds_of(SHAPES, sh),
                        lambda c, ds: c.attr(reader()(c, call(c, reader()(c, ds), "to_dictionary_style_dataset")), "opinion_score_3darray"),
                        spec("votes_list"), vscenes(tier))
            out.append(("read back/%s" % sh, g))
    return out
