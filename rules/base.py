"""Shared machinery of the rules: analysis runs, scenes (finite structures in which extracted
terms are interpreted), obligations and reports."""
import decimal
import itertools
import sys
import time
from sa import term as T
from sa.term import ONE, ZERO
from sa.values import *
from sa.interp import Raise, Abort
from sa.harness import Ctx, E, S, R, C
from sa.evalt import Structure, Undef, Opaque, rnd
from sa import denote as D
from sa.denote import MISS, UND

SM = "sureal.subjective_model"


class Run:
    """one analysed call: the value it returns (an abstract value) or the exception it ends in"""

    def __init__(self, name):
        self.name = name
        self.c = Ctx()
        self.val = None
        self.exc = None
        self.fail = None
        self.t0 = time.time()

    def finish(self, f):
        try:
            self.val = f(self.c)
        except Raise as e:
            self.exc = e
        except (Abort, RecursionError, AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
            # the analysis itself gave up: everything about this run is inconclusive
            self.fail = "%s: %s" % (type(e).__name__, str(e)[:160])
        self.wall = time.time() - self.t0
        return self

    @property
    def ok(self):
        return self.val is not None

    def outputs(self):
        """key -> abstract value of a result dictionary"""
        if self.val is None:
            return {}
        d = self.c.content(self.val)
        out = {}
        if isinstance(d, DictC):
            for e in d.ents:
                if isinstance(e, MuEnt) or not isinstance(e.key, K):
                    continue
                out[e.key.v] = (e.val, e.guard)
        return out

    def functions(self):
        return ["%s:%s" % x for x in self.c.I.funcs_seen if not x[0].startswith(("spec/", "sa/"))]


_runs = {}


def cached(key, f):
    if key not in _runs:
        _runs[key] = f()
    return _runs[key]


# ------------------------------------------------------------------ model runs

def model_run(cls, kw=None, mod=SM, inp="X", tag=""):
    """run_modeling of a model on an arbitrary dataset / arbitrary score array"""
    kw = kw or {}
    key = (mod, cls, tuple(sorted((k, v.__name__ if callable(v) else repr(v)) for k, v in kw.items())), inp, tag)

    def go():
        r = Run("%s.%s(%s)" % (mod, cls, ", ".join("%s=%s" % (k, getattr(v, "v", getattr(v, "__name__", v))) for k, v in sorted(kw.items()))))

        def f(c):
            ds = c.dataset("list", "scalar", inst_attrs={"ref_score": N(T.sym("refscore"))})
            x = c.arr("X", E, S, R, miss="prs", owner="input.scores")
            if inp != "X":
                x = INPUTS[inp](c, x)
            rd = c.call(c.get("spec.stubs", "ArrayReader"), ds, x)
            r.reader = rd
            r.x = x
            m = c.call(c.get(mod, cls), rd)
            r.model = m
            return c.call(c.attr(m, "run_modeling"), **{k: kwval(c, v) for k, v in kw.items()})
        return r.finish(f)
    return cached(key, go)


def kwval(c, v):
    if isinstance(v, Val):
        return v
    return v(c) if callable(v) else K(v)


def _arr_map(f):
    def g(c, x):
        a = c.content(x)
        return c.alloc(ArrC(a.dims, f(a.val), a.miss), owner="input.scores")
    return g


INPUTS = {"shift": _arr_map(lambda v: v + T.sym("delta")),
          "scale": _arr_map(lambda v: T.mul(v, T.sym("kappa", pos=True)))}


def spec_run(fn, kw=None, mod="spec.models", args=None, inst=None):
    """a reference definition, analysed by the same engine on the same symbolic input"""
    kw = kw or {}
    key = ("spec", mod, fn, tuple(sorted((k, repr(v)) for k, v in kw.items())))

    def go():
        r = Run("%s.%s" % (mod, fn))

        def f(c):
            if args:
                a = args(c)
            else:
                a = [c.arr("X", E, S, R, miss="prs", owner="input.scores"),
                     c.dataset("list", "scalar", inst_attrs={"ref_score": N(T.sym("refscore"))})]
            return c.call(c.get(mod, fn), *a, **{k: v if isinstance(v, Val) else K(v) for k, v in kw.items()})
        return r.finish(f)
    return cached(key, go)


# ------------------------------------------------------------------ scenes

class Scene:
    """finite sizes and vote tables; interpreted, never executed"""

    def __init__(self, name, e, s, r, vote, present=None, c=2, seed=0, tables=None, generic=True):
        self.name, self.sizes = name, {"E": e, "S": s, "R": r, "C": c}
        self.vote = vote
        self.present = present or (lambda e, s, r: 1)
        self.seed = seed
        self.extra = tables or {}
        self.generic = generic

    def tables(self):
        n = self.sizes["C"]
        t = {"X": lambda st, e, s, r=0: self.vote(e, s, r),
             "prs": lambda st, e, s, r=0: self.present(e, s, r),
             "dcid": lambda st, e: e % n,
             "cid": lambda st, k: k,
             "refpath": lambda st, k: 1000 + k,
             "dispath": lambda st, e: 1000 + e if e < n else 2000 + e,
             "aid": lambda st, e: e,
             "refscore": lambda st: 5,
             "delta": lambda st: 1.75,
             "kappa": lambda st: 2.5}
        t.update(self.extra)
        return t

    @property
    def refscore(self):
        return self.tables()["refscore"](None)

    def structure(self, run, **over):
        if not over:
            key = (id(self), id(run))
            if key not in _structs:
                _structs[key] = (self.new_structure(run), self, run)
            return _structs[key][0]
        return self.new_structure(run, **over)

    def new_structure(self, run, **over):
        st = Structure(self.seed, dict(self.sizes), loops=run.c.I.loops)
        st.tables = self.tables()
        st.tables.update(over)
        return st

    def resized(self, name, z, extra):
        return Scene(name, z["E"], z["S"], z["R"], self.vote, self.present, z["C"], self.seed, dict(self.extra, **extra), self.generic)

    def variant(self, name, **kw):
        s = Scene(name, self.sizes["E"], self.sizes["S"], self.sizes["R"], self.vote, self.present, self.sizes["C"], self.seed, dict(self.extra), self.generic)
        for k, v in kw.items():
            setattr(s, k, v)
        return s


def u(*k):
    return rnd("scene", *k)


def _generic(seed):
    # additive model with noise, so that the iterative estimators are well behaved
    def f(e, s, r):
        return 1 + 4 * u(seed, "q", e) + (u(seed, "b", s) - 0.5) + (0.4 + u(seed, "v", s)) * (u(seed, "n", e, s, r) + u(seed, "n2", e, s, r) - 1)
    return f


def _ints(seed, lo=0, hi=5):
    return lambda e, s, r: lo + int((hi - lo + 1) * u(seed, "i", e, s, r))


def _outlier(seed, bad=(0,), spread=1.0):
    """most subjects agree; bad subjects vote far above and far below in turn"""
    def f(e, s, r):
        if s in bad:
            return (3 + 3.1 * spread * (1 if (e + r) % 2 else -1)) + 0.05 * u(seed, "o", e, s, r)
        z = sum(u(seed, "g", e, s, r, k) for k in range(6)) - 3
        return 3 + 0.2 * (e % 3) + 1.1 * z * spread
    return f


def _mask(seed, p):
    return lambda e, s, r: 0 if u(seed, "m", e, s, r) < p else 1


def _keep_mask(seed, p, S):
    """missing votes, but every stimulus and subject keeps several first-repetition votes"""
    return lambda e, s, r: 1 if (r == 0 and (e + s) % 2 == 0) else (0 if u(seed, "m", e, s, r) < p else 1)


_structs = {}
_scenes = {}


def _moved(f, d, k=1):
    return lambda e, s, r: k * f(e, s, r) + d


def edge_scenes():
    """structures at the edges: means of exactly zero, tiny and huge spreads, a handful of votes"""
    return [Scene("zero mean", 6, 8, 1, lambda e, s, r: (1 if s < 4 else -1) * ((e % 3 + 1) if (s + e) % 4 == 0 else ((s % 4) % 2)), seed=91, tables={"refscore": lambda st: 0}),
            Scene("tiny spread", 5, 6, 1, _moved(_outlier(92, (1,)), 0, 0.001), seed=92),
            Scene("few", 3, 2, 1, _generic(93), seed=93, c=1),
            Scene("few/R=2", 2, 3, 2, _ints(94, -2, 3), lambda e, s, r: 0 if (e, s, r) == (1, 2, 1) else 1, seed=94, c=1)]


def model_scenes(tier="quick", reps=(1, 2), small=False):
    key = (tier, reps, small)
    if key not in _scenes:
        _scenes[key] = model_scenes_(tier, reps, small)
    return _scenes[key]


def model_scenes_(tier, reps, small):
    out = []
    k = 0
    for r in reps:
        out.append(Scene("generic/R=%d" % r, 6, 5, r, _generic(10 + r), _keep_mask(10 + r, 0.3, 5), seed=10 + r))
        if not small:
            out.append(Scene("complete/R=%d" % r, 5, 6, r, _moved(_generic(20 + r), -3.5 if r == 2 else 0), seed=20 + r))
            out.append(Scene("ties/R=%d" % r, 5, 6, r, _ints(30 + r), _keep_mask(30 + r, 0.2, 6), seed=30 + r))
            out.append(Scene("outliers/R=%d" % r, 6, 9, r, _outlier(40 + r, (0,)), seed=40 + r))
            out.append(Scene("outliers+missing/R=%d" % r, 7, 10, r, _outlier(50 + r, (2, 5)), _keep_mask(50 + r, 0.1, 10), seed=50 + r))
    if not small:
        out += edge_scenes()
    if tier == "thorough":
        for i in range(12):
            r = 1 + i % 3
            out.append(Scene("generic%d/R=%d" % (i, r), 4 + i % 4, 4 + i % 5, r, _generic(100 + i), _keep_mask(100 + i, 0.1 * (i % 6), 9), c=1 + i % 3, seed=100 + i))
            if not small:
                out.append(Scene("ints%d/R=%d" % (i, r), 4 + i % 4, 4 + i % 5, r, _ints(200 + i, -3, 7), _keep_mask(200 + i, 0.1 * (i % 6), 9), c=1 + i % 3, seed=200 + i))
                out.append(Scene("outliers%d/R=%d" % (i, r), 5 + i % 4, 8 + i % 5, r, _outlier(300 + i, (i % 3, 4), 1 + 0.1 * i), _keep_mask(300 + i, 0.05 * (i % 4), 12), seed=300 + i))
    return out


# ------------------------------------------------------------------ outcome of a run in a structure

def raised(run, st):
    """name of the exception the analysed call ends in, in this structure (None: returns normally);
    raises Opaque when a relevant guard is not modelled"""
    if run.exc is not None:
        return run.exc.name
    for ev in run.c.I.events:
        if ev.kind not in ("assert", "reject"):
            continue
        g = ev.data[0]
        name = ev.data[1] if ev.kind == "reject" else "AssertionError"
        try:
            pts = list(map(dict, st.points(ev.loops, {}))) if ev.loops else [{}]
        except (Undef, KeyError):
            continue
        for env in pts:
            try:
                if ev.pc is not ONE and st.ev(ev.pc, env) == 0:
                    continue
                b = st.ev(g, env) != 0
            except (Undef, KeyError):
                continue
            if b == (ev.kind == "reject"):
                return name
    return None


# ------------------------------------------------------------------ report

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []               # (id, status, detail)
        self.sites = {}
        self.scenes = set()
        self.bools = {}
        self.funcs = set()
        self.notes = []
        self.t0 = time.time()

    def add(self, oid, status, detail="", where=""):
        self.obs.append((oid, status, detail, where))

    def count(self, s):
        return sum(1 for o in self.obs if o[1] == s)

    def cover(self, st):
        for k, v in st.seen_bool.items():
            self.bools[k] = self.bools.get(k, 0) | v




_guards = [0, []]


def size_guards():
    """boolean atoms of the analysed terms that depend on the sizes of the input (and the reference score) only"""
    tab = T.Atom._tab
    for a in itertools.islice(list(tab.values()), _guards[0], None):
        if a.kind not in ("gt0", "ge0", "eq0") or a.free:
            continue
        leaves = T.all_atoms(a.data[0]).values()
        if all(x.kind in ("sz", "num", "szm1") or (x.kind == "c" and x.data[0] == "refscore") for x in leaves):
            names = {x.data[0] for x in leaves if x.kind in ("sz", "szm1")} | {"refscore" for x in leaves if x.kind == "c"}
            if names and names <= {"E", "S", "R", "C", "refscore"}:
                _guards[1].append((a, sorted(names)))
    _guards[0] = len(tab)
    return _guards[1]


_extra = {}


def with_guards(scenes, *runs):
    """the scenes, and variants of the first one in which tests on sizes that none of them decides
    otherwise come out the other way: no branch on a size is left unexplored.  Sizes the analysed
    calls refuse are left out"""
    if not scenes or not hasattr(scenes[0], "resized"):
        return scenes
    base = scenes[0]
    out = []
    for a, names in size_guards():
        key = (a.digest, base.name, tuple(base.extra), tuple(s.name for s in scenes))
        if key not in _extra:
            _extra[key] = flip(a, names, base, scenes)
        sc = _extra[key]
        if sc is not None and all(sc.name != o.name for o in out) and not any(refuses(r, sc) for r in runs):
            out.append(sc)
        if len(out) >= 6:
            break
    return scenes + out if isinstance(scenes, list) else list(scenes) + out


def refuses(run, sc):
    key = ("refuses", id(run), id(sc))
    if key not in _extra:
        try:
            _extra[key] = raised(run, sc.structure(run)) is not None
        except Opaque:
            _extra[key] = True
    return _extra[key]


def flip(a, names, base, scenes):
    term = T.from_atom(a)

    def truth(sizes, ref):
        st = Structure(0, dict(sizes))
        st.tables = {"refscore": lambda st: ref}
        return st.ev(term, {}) != 0
    try:
        vals = {truth(s.sizes, s.tables().get("refscore", lambda st: 5)(None)) for s in scenes}
        if len(vals) != 1:
            return None
        old = vals.pop()
        for n in names:
            if n == "R" and len({s.sizes["R"] > 1 for s in scenes}) < 2:
                continue            # the estimator is stated for single (or repeated) votes only
            if n == "refscore":
                cand = [0, 1, -1, 2, 10, 100, -100]
            else:
                b = base.sizes[n]
                cand = sorted(range(2 if n in "ES" else 1, 65), key=lambda x: (abs(x - b), x))
            for v in cand:
                sizes = dict(base.sizes)
                if n != "refscore":
                    sizes[n] = v
                if sizes["C"] > sizes["E"] or sizes["E"] * sizes["S"] * sizes["R"] > 1500:
                    continue
                if truth(sizes, v if n == "refscore" else 5) != old:
                    return base.resized("%s/%s=%s" % (base.name, n, v), sizes, {"refscore": lambda st: v} if n == "refscore" else {})
    except (Undef, Opaque, KeyError):
        pass
    return None


def stable(run, val, new, tol=1e-6):
    """does the value survive a change of the last digits of the arithmetic?  An iteration that
    amplifies rounding without bound (a Newton search that does not settle) separates nothing:
    equal terms written in another order would differ as well"""
    if not run.c.I.loops:
        return True
    try:
        a = D.den(run.c, run.c.st, val, new())
        with decimal.localcontext() as cx:
            cx.prec = 33
            b = D.den(run.c, run.c.st, val, new())
    except Opaque:
        return False
    return D.diff_den(a, b, tol) is None


def decide_equal(rep, oid, ra, va, rb, vb, scenes, tol=1e-6, wh=""):
    rep.funcs |= set(ra.functions())
    wh = wh or ra.name
    """va (code) equals vb (reference) for every input: normal forms, else random interpretation"""
    try:
        if D.nf_equal(ra.c, ra.c.st, va, rb.c, rb.c.st, vb):
            rep.add(oid, "proved", "same normal form", wh)
            return
    except Exception:
        pass
    n = 0
    why = ""
    for sc in with_guards(scenes, ra, rb):
        sa, sb = sc.structure(ra), sc.structure(rb)
        try:
            x = D.den(ra.c, ra.c.st, va, sa)
            y = D.den(rb.c, rb.c.st, vb, sb)
        except Opaque as o:
            why = str(o)
            continue
        rep.cover(sa)
        rep.scenes.add(sc.name)
        d = D.diff_den(x, y, tol)
        if d is not None and not (stable(ra, va, lambda: sc.new_structure(ra)) and stable(rb, vb, lambda: sc.new_structure(rb))):
            why = "an iteration that does not settle in structure %s" % sc.name
            continue
        if d is not None:
            rep.add(oid, "violated", "in structure %s: at %s the code gives %s where %s gives %s" % (sc.name, D.named(d[0]) or "value", short(d[1]), rb.name, short(d[2])), wh)
            return
        n += 1
    if n:
        rep.add(oid, "agreed", "%d structures" % n, wh)
    else:
        rep.add(oid, "inconclusive", why, wh)


def short(x):
    s = D.named(repr(x))
    return s if len(s) < 60 else s[:57] + "..."


def map_den(f, x):
    if isinstance(x, list):
        return [map_den(f, y) for y in x]
    if isinstance(x, dict):
        return {k: map_den(f, y) for k, y in x.items()}
    if isinstance(x, (int, float)) and x is not MISS:
        return f(x)
    return x


# ------------------------------------------------------------------ models

#   spec: keyword arguments of spec.models.model
MOS_FAMILY = {
    "MosModel": {},
    "DmosModel": dict(dscore=True),
    "ZscoringMosModel": dict(zscore=True),
    "BiasremvMosModel": dict(debias=True),
    "SubjrejMosModel": dict(reject="kurtosis"),
    "SubjrejMosModelPearson": dict(reject="pearson"),
    "SubjrejMosModelSpearman": dict(reject="spearman"),
    "ZscoringSubjrejMosModel": dict(zscore=True, reject="kurtosis"),
    "SubjrejDmosModel": dict(dscore=True, reject="kurtosis"),
    "ZscoringSubjrejDmosModel": dict(dscore=True, zscore=True, reject="kurtosis"),
    "BiasremvSubjrejMosModel": dict(debias=True, reject="kurtosis"),
    "BiasremvSubjrejMosModelPearson": dict(debias=True, reject="pearson"),
    "BiasremvSubjrejMosModelSpearman": dict(debias=True, reject="spearman"),
}
PROJECTION = ["SubjectMLEModelProjectionSolver", "SubjectMLEModelProjectionSolver2",
              "MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection",
              "MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection2"]
MLE = ["MaximumLikelihoodEstimationModel", "MaximumLikelihoodEstimationModelContentOblivious",
       "MaximumLikelihoodEstimationModelSubjectOblivious"]
MLE_DMOS = ["MaximumLikelihoodEstimationDmosModel", "MaximumLikelihoodEstimationDmosModelContentOblivious"]


def mle_kw():
    return {"delta_thr": N(T.sym("delta_thr", pos=True))}


def entry_ok(rep, name, run):
    """the analysed call must return on valid input"""
    rep.funcs |= set(run.functions())
    if run.exc is not None:
        rep.add(name, "violated", "ends in %s for every valid dataset: %s" % (run.exc.name, run.exc.msg), run.name)
        return False
    if not run.ok:
        rep.add(name, "inconclusive", run.fail or "no value", run.name)
        return False
    return True


def compare_outputs(rep, name, ra, rb, keys, scenes, tol=1e-6):
    """outputs `keys` of run ra equal those of reference run rb"""
    if not entry_ok(rep, name, ra):
        return
    if not rb.ok:
        rep.add(name, "inconclusive", "reference not analysed: %s" % (rb.fail or rb.exc), rb.name)
        return
    oa, ob = ra.outputs(), rb.outputs()
    opaque = not isinstance(ra.c.content(ra.val), DictC)
    for k in keys or sorted(ob):
        if k not in ob:
            continue
        oid = "%s[%s]" % (name, k)
        if k not in oa:
            if opaque:
                rep.add(oid, "inconclusive", "result not modelled", ra.name)
            else:
                rep.add(oid, "violated", "the result has no %r" % k, ra.name)
            continue
        decide_equal(rep, oid, ra, oa[k][0], rb, ob[k][0], scenes, tol)
    returns(rep, name, ra, scenes, rb)


def returns(rep, name, ra, scenes, rb=None):
    """no exception on valid data, except where the reference run raises too"""
    for sc in scenes:
        try:
            x = raised(ra, sc.structure(ra))
            if x is not None and rb is not None and raised(rb, sc.structure(rb)) is not None:
                continue
        except Opaque:
            continue
        if x is not None:
            rep.add(name + "[returns]", "violated", "raises %s in structure %s" % (x, sc.name), ra.name)
            return
    rep.add(name + "[returns]", "agreed", "%d structures" % len(scenes), ra.name)


def dens(run, out, keys, st):
    """denotations of several outputs in one structure (absent: not modelled)"""
    d = {}
    for k in keys:
        if k in out:
            try:
                d[k] = D.den(run.c, run.c.st, out[k][0], st)
            except Opaque:
                pass
    return d


def related(rep, name, ra, rb, keys, scenes, want, tol=1e-6):
    """outputs of run ra equal want(k, denotations of rb), scene by scene"""
    if not entry_ok(rep, name, ra):
        return
    if not rb.ok:
        rep.add(name, "inconclusive", rb.fail or str(rb.exc), rb.name)
        return
    oa, ob = ra.outputs(), rb.outputs()
    n, bad = {}, set()
    for k in ob:
        if k in keys and k not in oa and isinstance(ra.c.content(ra.val), DictC):
            rep.add("%s[%s]" % (name, k), "violated", "the result has no %r" % k, ra.name)
            bad.add(k)
    for sc in with_guards(scenes, ra, rb):
        sa, sb = sc.structure(ra), sc.structure(rb)
        da, db = dens(ra, oa, keys, sa), dens(rb, ob, keys, sb)
        rep.scenes.add(sc.name)
        rep.cover(sa)
        for k in da:
            if k in bad:
                continue
            try:
                w = want(k, db, sc)
            except KeyError:
                continue
            if w is None:
                continue
            d = D.diff_den(da[k], w, tol)
            if d is not None and not (stable(ra, oa[k][0], lambda: sc.new_structure(ra)) and (k not in ob or stable(rb, ob[k][0], lambda: sc.new_structure(rb)))):
                continue
            if d is not None:
                bad.add(k)
                rep.add("%s[%s]" % (name, k), "violated", "structure %s: at %s the code gives %s, expected %s" % (sc.name, D.named(d[0]) or "value", short(d[1]), short(d[2])), ra.name)
            else:
                n[k] = n.get(k, 0) + 1
    for k in keys:
        if k in oa and k not in bad:
            rep.add("%s[%s]" % (name, k), "agreed" if n.get(k) else "inconclusive", "%d structures" % n.get(k, 0), ra.name)
    returns(rep, name, ra, scenes, rb)


def transformed(rep, name, run, scenes, change, relate, keys, tol=1e-6):
    """run interpreted in pairs of structures (scene, changed scene): outputs must be related"""
    if not entry_ok(rep, name, run):
        return
    out = run.outputs()
    todo = {k: 0 for k in keys if k in out}
    for k in keys:
        if k not in out:
            rep.add("%s[%s]" % (name, k), "violated", "the result has no %r" % k, run.name)
    why = {}
    for sc in with_guards(scenes, run):
        s2 = change(sc)
        st1, st2 = sc.structure(run), s2.structure(run)
        for k in list(todo):
            oid = "%s[%s]" % (name, k)
            try:
                a = D.den(run.c, run.c.st, out[k][0], st1)
                b = D.den(run.c, run.c.st, out[k][0], st2)
            except Opaque as o:
                why[k] = str(o)
                continue
            want = relate(k, a, sc)
            if want is None:
                continue
            d = D.diff_den(b, want, tol)
            rep.scenes.add(sc.name)
            rep.cover(st1)
            if d is not None and not (stable(run, out[k][0], lambda: sc.new_structure(run)) and stable(run, out[k][0], lambda: s2.new_structure(run))):
                why[k] = "an iteration that does not settle in structure %s" % sc.name
                continue
            if d is not None:
                rep.add(oid, "violated", "structure %s: at %s the changed input gives %s, expected %s" % (sc.name, D.named(d[0]) or "value", short(d[1]), short(d[2])), run.name)
                del todo[k]
            else:
                todo[k] += 1
    for k, n in todo.items():
        oid = "%s[%s]" % (name, k)
        if n:
            rep.add(oid, "agreed", "%d structure pairs" % n, run.name)
        else:
            rep.add(oid, "inconclusive", why.get(k, ""), run.name)


_iter = {}


def iter_scenes(tier="quick", thr=0.02, reps=(1, 2)):
    """structures for the iterative estimators (well-conditioned data, early stop through delta_thr)"""
    key = (tier, thr, reps)
    if key not in _iter:
        out = []
        n = 1 if tier == "quick" else 3
        for i in range(n):
            for r in reps:
                ex = {"delta_thr": lambda st: thr}
                out.append(Scene("iter%d/R=%d" % (i, r), 6 + i, 5 + i, r, _moved(_generic(60 + 10 * i + r), -3 if r == 2 else 0), _keep_mask(60 + 10 * i + r, 0.3, 5 + i), c=2 + (i % 2), seed=60 + 10 * i + r, tables=ex))
        _iter[key] = out
    return _iter[key]


def sparse_scenes():
    """a stimulus with a single vote, a subject with two"""
    if "sparse" not in _iter:
        _iter["sparse"] = [Scene("sparse", 6, 5, 1, _generic(95), lambda e, s, r: (s == 1) if e == 0 else (e in (2, 3)) if s == 4 else 1, seed=95)]
    return _iter["sparse"]


def tiny_scenes():
    """spreads comparable to the regularisation of the projection estimator; few votes per subject"""
    if "tiny" not in _iter:
        _iter["tiny"] = [Scene("iter tiny", 5, 4, 1, _moved(_generic(81), 0, 0.0003), _keep_mask(81, 0.4, 4), seed=81, tables={"delta_thr": lambda st: 1e-5})]
    return _iter["tiny"]


def short_scenes():
    if "short" not in _iter:
        _iter["short"] = [Scene("iter short", 3, 7, 1, _generic(83), seed=83, tables={"delta_thr": lambda st: 0.02})]
    return _iter["short"]


def legacy_scenes():
    key = "legacy"
    if key not in _iter:
        _iter[key] = [Scene("legacy", 5, 4, 1, _generic(11), seed=11)]
    return _iter[key]


def complete_scenes(tier="quick"):
    key = ("complete", tier)
    if key not in _iter:
        _iter[key] = [Scene("complete1", 4, 3, 1, _generic(71), seed=71), Scene("complete2", 3, 5, 1, _ints(72, -2, 6), seed=72)]
    return _iter[key]


DSCORED = {"DmosModel", "SubjrejDmosModel", "ZscoringSubjrejDmosModel", "LiveDmosModel"} | set(MLE_DMOS)
ZSCORED = {"ZscoringMosModel", "ZscoringSubjrejMosModel", "ZscoringSubjrejDmosModel", "LiveDmosModel"}
REJECTING = {m for m, s in MOS_FAMILY.items() if "reject" in s}
SINGLE = ["LeastSquaresModel", "LegacyMaximumLikelihoodEstimationModel"]      # one vote per subject and stimulus


def all_models():
    return list(MOS_FAMILY) + ["LiveDmosModel", "PerSubjectModel"] + SINGLE + PROJECTION + MLE + MLE_DMOS


def run_of(m):
    return model_run(m, mle_kw() if m in MLE + MLE_DMOS else {})


def scenes_of(m, tier):
    if m == "LeastSquaresModel":
        return complete_scenes(tier)
    if m == "LegacyMaximumLikelihoodEstimationModel":
        return legacy_scenes()
    if m in PROJECTION:
        return iter_scenes(tier)[:2 if tier == "quick" else None]
    if m in MLE + MLE_DMOS:
        return iter_scenes(tier)
    return model_scenes(tier)


def spec_of(m):
    if m in MOS_FAMILY:
        return spec_run("model", MOS_FAMILY[m])
    if m == "LiveDmosModel":
        return spec_run("live_dmos")
    if m == "PerSubjectModel":
        return spec_run("per_subject")
    if m == "LeastSquaresModel":
        return spec_run("least_squares")
    it = "spec.iterative"
    if m == "LegacyMaximumLikelihoodEstimationModel":
        return spec_run("legacy", mod=it)
    if m in PROJECTION:
        return spec_run("projection", {"std": "stimulus"} if m.endswith("2") else {}, mod=it)
    kw = mle_kw()
    if "ContentOblivious" in m:
        kw["mode"] = K("no_content")
    if "SubjectOblivious" in m:
        kw["mode"] = K("no_subject")
    if m in MLE_DMOS:
        kw["dscore"] = K(True)
    return spec_run("mle", kw, mod=it)


def against_spec(m, keys, tier, more=()):
    return lambda rep: compare_outputs(rep, m, run_of(m), spec_of(m), keys, scenes_of(m, tier) + list(more))


SHIFTED = ("quality_scores", "reconstructions", "raw_scores", "observer_scores_mean")
SPREAD = ("quality_scores_std", "quality_scores_ci95", "quality_ambiguity", "observer_bias_std", "observer_bias_ci95",
          "observer_inconsistency", "observer_inconsistency_std", "observer_inconsistency_ci95", "observer_scores_std",
          "content_ambiguity", "content_ambiguity_std", "content_ambiguity_ci95")
PER_SUBJECT = ("observer_bias", "observer_bias_std", "observer_inconsistency", "observer_inconsistency_std",
               "observer_scores_mean", "observer_scores_std", "observer_rejected", "observer_rejected_1st_stats", "observer_rejected_2nd_stats")
PER_SUBJECT_CI = ("observer_bias_ci95", "observer_inconsistency_ci95")
PER_STIMULUS = ("quality_scores", "quality_scores_std", "quality_ambiguity")
PER_STIMULUS_CI = ("quality_scores_ci95",)
FIT = ("dof", "loglikelihood", "aic", "bic")
