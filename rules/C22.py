"""Combination of two datasets."""
from rules.exports import *

RULE = ("Value-graph equivalence of the combined dataset with its declared content: one entry per pair of stimuli with the same path, "
        "all votes of both datasets (a common subject's votes concatenated, first dataset first), contents renumbered consistently.")

SECOND = {
    "dict": ([(1, 0, "x", {"bob": "v", "Ann": 2, "new": ("t", 2)}), (7, 0, "r1", {"zoe": "v", "al": 3, "kim": 2}), (3, 1, "q", {"zoe": "v"})], [(0, "x"), (1, "q")]),
    "list": ([(0, 0, "p1", ["v", 2]), (1, 0, "r0", [("t", 2), "v"]), (2, 0, "p", [1, "v"])], [(0, "r0")]),
    "same": ([(4, 0, "r0", {"zoe": 2, "Ann": "v"}), (2, 1, "x", {"bob": "v", "Ann": ("t", 2)}), (9, 1, "r1", {"al": "v", "zoe": "v", "bob": 2})], [(0, "r0"), (1, "r1")]),
    "disjoint": ([(0, 0, "elsewhere", {"zoe": "v"})], [(0, "elsewhere")]),
    "repeated": ([(0, 0, "r1", {"zoe": "v"}), (1, 0, "r0", {"bob": "v"}), (2, 0, "r1", {"zoe": "v", "bob": 2})], [(0, "r1")]),
}
FIRST = dict(SHAPES)
FIRST["dict contents out of order"] = ([(0, 2, "r1", {"zoe": 2}), (1, 0, "x", {"zoe": "v"}), (2, 2, "p", {"Ann": "v", "zoe": "v"}), (3, 1, "r0", {"al": ("t", 2), "bob": "v"})], [(0, "x"), (1, "r0"), (2, "r1")])
FIRST["dict contents alternating"] = ([(0, 1, "r1", {"zoe": 2}), (1, 0, "x", {"zoe": "v"}), (2, 1, "p", {"Ann": "v", "zoe": "v"}), (3, 0, "r0", {"al": ("t", 2), "bob": "v"})], [(0, "r0"), (1, "r1")])
SECOND["all"] = ([(0, 0, "p", {"zoe": "v", "new": 2}), (1, 0, "r0", {"al": "v"}), (2, 0, "r1", {"zoe": "v"}), (3, 0, "x", {"bob": 2, "zoe": "v"}), (4, 0, "p1", {"q": "v"})], [(0, "r1")])


def tasks(tier):
    out = []
    for a in FIRST:
        for b in SECOND:
            def g(rep, a=a, b=b):
                def make(c):
                    return c.alloc(InstC(Ext("pair"), {"a": ds_of(FIRST, a)(c), "b": ds_of(SECOND, b, "input2", "W")(c)}))
                compare(rep, "%s combined with %s" % (a, b), make,
                        lambda c, p: call(c, reader()(c, c.attr(p, "a")), "to_combined_overlap_dataset", reader()(c, c.attr(p, "b"))),
                        lambda c, p: c.call(c.get("spec.exports", "combined"), c.attr(p, "a"), c.attr(p, "b")), vscenes(tier))
            out.append(("%s/%s" % (a, b), g))
    return out
