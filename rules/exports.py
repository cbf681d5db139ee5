"""Shared machinery of the export rules."""
from rules.readers import *

XSHAPES = dict(SHAPES)
ATTRS = {"ref_score": 5.0, "quality_height": 720, "license": "free", "__private": 3}


def ds_of(shapes, sh, owner="input", tag="V", attrs=ATTRS, extra=None):
    dis, refs = shapes[sh]
    return lambda c: c.small(dis, refs, owner=owner, tag=tag, attrs=attrs, extra=extra or {"note": lambda e: K("n%d" % e)})


def lst(c, xs, owner="input.arg"):
    return c.alloc(ListC([Seg((), ONE, x if isinstance(x, Val) else K(x)) for x in xs]), owner=owner)


def symlist(c, tag, n, kind="list"):
    """n symbolic numbers"""
    xs = [N(T.app(tag, T.const(90), T.const(i), ZERO)) for i in range(n)]
    return Tup(xs) if kind == "tuple" else lst(c, xs)


def symarr(c, tag, n):
    v = Var("i", T.const(n))
    return c.alloc(ArrC([Dim([v])], T.app(tag, T.const(90), T.idx(v), ZERO), ZERO), owner="input.arg")


def call(c, o, name, *a, **kw):
    return c.call(c.attr(o, name), *a, **kw)


def compare(rep, oid, make, f, g, scenes):
    value_equal(rep, oid, run_on(oid, make, f), run_on(oid + " (reference)", make, g), scenes)
