"""Helpers the models and routines rest on."""
from rules.exports import *
from rules.C17 import unchanged, bundle
from rules.C29 import at

RULE = ("Value-graph equivalence of each helper with its definition: weighted means of the values present, densities, counts, positions, "
        "parallel map = map, cached call = call, in every order in which processes finish and for any earlier calls.")
ST, MI, DE = "sureal.tools.stats", "sureal.tools.misc", "sureal.tools.decorator"


class PScene(Scene):
    """numbers for points, locations and positive scales"""

    def __init__(self, name, n, m, seed, grid=None):
        super().__init__(name, n, m, 1, lambda e, s, r: 0, lambda e, s, r: 1 if (e + s) % 2 == 0 or u(seed, "p", e, s) < 0.6 else 0, seed=seed)
        self.grid = grid

    def tables(self):
        g, sd = self.grid, self.seed

        def num(tag, lo, hi):
            return lambda st, *k: lo + (int((hi - lo) * g * u(sd, tag, *k)) / g if g else (hi - lo) * u(sd, tag, *k))
        t = super().tables()
        t.update({"A": num("A", -3, 3), "M1": num("M1", -1, 1), "M2": num("M2", -1, 1), "W1": num("W1", 0.5, 2.5), "W2": num("W2", 0.5, 2.5), "V": num("V", -3, 3), "wt": num("wt", 0.5, 3)})
        return t


def pscenes(tier):
    n = 2 if tier == "quick" else 10
    return [PScene("points/%d" % i, 4 + i, 3 + i % 3, 20 + i) for i in range(n)] + [PScene("points on a grid/%d" % i, 5, 4 + i, 40 + i, grid=2) for i in range(n)]


def sc(*tags):
    return lambda c: [N(T.app(t, ZERO, ZERO, pos=t[0] in "W")) for t in tags]


def ar(nd, *tags):
    return lambda c: [c.arr(t, *(E, S)[:nd], owner="input.arg", pos=t[0] in "W") for t in tags]


def fun(mod, name, mk):
    return lambda c, _: c.call(c.get(mod, name), *mk(c))


UNI = ("A", "M1", "W1", "M2", "W2")
GAU = ("A", "M1", "W1")


def uninterpreted(c):
    return Ext("sa.test_function")


def lists(c, kind, n=5):
    xs = [N(T.app("V", T.const(i), ZERO, ZERO)) for i in range(n)]
    return Tup(xs) if kind == "tuple" else symarr1(c, n) if kind == "array" else lst(c, xs)


def symarr1(c, n):
    v = Var("i", T.const(n))
    return c.alloc(ArrC([Dim([v])], T.app("V", T.idx(v), ZERO, ZERO), ZERO), owner="input.arg")


def gt2(c):
    return c.get("spec.stubs", "above")


def tasks(tier):
    out = []

    def add(name, f, g, scenes=None, make=lambda c: K(None)):
        out.append((name, lambda rep: compare(rep, name, make, f, g, scenes or pscenes(tier))))
    for ax in (0, 1):
        w = lambda c, ax=ax: [c.arr("A", E, S, miss="prs", owner="input.arg"), c.arr("wt", E if ax == 0 else S, owner="input.arg", pos=True), K(ax)]
        add("weighted mean of the values present, axis %d" % ax, fun(MI, "weighed_nanmean_2d", w), fun("spec.helpers", "weighted_mean", w))
    add("normal density", fun(ST, "vectorized_gaussian", ar(1, *GAU)), fun("spec.helpers", "gaussian", ar(1, *GAU)))
    add("normal density, tables", fun(ST, "vectorized_gaussian", ar(2, *GAU)), fun("spec.helpers", "gaussian", ar(2, *GAU)))
    add("logistic density", fun(ST, "vectorized_logistic", ar(2, *GAU)), fun("spec.helpers", "logistic", ar(2, *GAU)))
    add("density of the sum of two uniforms", fun(ST, "convolution_of_two_uniforms", sc(*UNI)), fun("spec.helpers", "two_uniforms", sc(*UNI)),
        [PScene("point/%d" % i, 2, 2, 60 + i, grid=None) for i in range(40)])
    one = lambda c, _: c.call(Ext("numpy.vectorize"), c.get("spec.helpers", "two_uniforms"))
    add("density of the sum of two uniforms, tables", fun(ST, "vectorized_convolution_of_two_uniforms", ar(2, *UNI)), lambda c, _: c.call(one(c, _), *ar(2, *UNI)(c)))
    for k in ("list", "tuple", "array"):
        add("counts of numbers (%s)" % k, lambda c, _, k=k: c.call(c.get(ST, "histc"), lists(c, k)), lambda c, _, k=k: c.call(c.get("spec.helpers", "counts"), lists(c, k)), vscenes(tier))
        add("positions satisfying a condition (%s)" % k, lambda c, _, k=k: c.call(c.get(MI, "indices"), lists(c, k), gt2(c)), lambda c, _, k=k: c.call(c.get("spec.helpers", "positions"), lists(c, k), gt2(c)), vscenes(tier))
    add("sorted distinct values", lambda c, _: c.call(c.get(MI, "get_unique_sorted_list"), lists(c, "list")), lambda c, _: c.call(c.get("spec.helpers", "distinct"), lists(c, "list")), vscenes(tier))
    return out


ARGS = {"repeated": [("a", 1), ("b", 2), ("a", 1), ("a", 2)], "look-alikes": [("1",), (1,), ("a", "b"), ("ab",), ("a,b",), ("a', 'b",), ("1",), ()],
        "nested": [(("x", 1), None), ("x", 1, None), (("x",), 1, None), (("x", 1), None)]}


def calls(argss):
    def up(c, x):
        return Tup([up(c, y) for y in x]) if isinstance(x, tuple) else K(x)
    return lambda c: lst(c, [up(c, a) for a in argss])


def drive(name, mk, setup=None):
    def f(c, _):
        if setup:
            setup(c)
        return c.call(c.get("spec.drivers", name), *mk(c))
    return f


def empty_files(c):
    c.I.vfs = {}


def schedule(seed):
    def f(c):
        k = [0]

        def pick(n):
            k[0] += 1
            return int(n * u("pick", seed, k[0])) if seed else 0
        c.I.pick = pick
        c.I.lifetime = lambda no: int(4 * u("life", seed, no)) if seed > 1 else 0
        c.I.unroll_true = 80
    return f


_numeric = tasks


def tasks(tier):
    out = _numeric(tier)

    def add(name, f, g, scenes=None):
        out.append((name, lambda rep: compare(rep, name, lambda c: K(None), f, g, scenes or vscenes("quick")[:1])))
    for an, argss in ARGS.items():
        mk = lambda c, argss=argss: [calls(argss)(c)]
        for d, what in (("memo", "memory"), ("in_file", "one file"), ("in_dir", "a directory"), ("in_file_later", "a file, by a later process"), ("in_dir_later", "a directory, by a later process")):
            add("cached calls in %s, %s arguments" % (what, an), drive(d, mk, empty_files), drive("plain", mk))
    add("cached method of several objects", drive("method", lambda c: [lst(c, ["p", "q", "p"]), lst(c, [1, 2, 1])]), drive("method_plain", lambda c: [lst(c, ["p", "q", "p"]), lst(c, [1, 2, 1])]))
    for seed in range(4 if tier == "quick" else 16):
        for kind in ("list", "tuple", "iterator"):
            for n, np_ in ((5, 2), (3, 1), (4, None), (1, 2), (0, 2)):
                mk = lambda c, n=n, np_=np_, kind=kind: [lst(c, [N(T.app("V", T.const(i), ZERO, ZERO)) for i in range(n)]), K(np_), K(kind)]
                add("parallel map of %d items (%s), %s processes, order %d" % (n, kind, np_ or "as many as cores", seed), drive("spread", mk, schedule(seed)), drive("spread_plain", mk))
    return out
