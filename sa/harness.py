"""Symbolic inputs and entry points."""
import os
from . import term as T
from .term import ONE, ZERO, Var
from .values import *
from .interp import Interp, State, Raise, Abort, Out, FrameC, Meta
from .project import Project

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

E, S, R, C = T.size("E"), T.size("S"), T.size("R"), T.size("C")


class Ctx:
    """one analysis run: interpreter + state with a root frame"""

    def __init__(self, project=None):
        self.P = project or Project([REPO, HERE])
        self.I = Interp(self.P)
        self.st = State()
        loc = next(self.I._loc)
        self.root = loc
        mod = self.P.find_module("spec.root") or self.P.find_module("sa.harness")
        self.st.heap[loc] = FrameC({}, None, (mod, None))
        self.I.heapmeta[loc] = Meta("frame", (), "root", 0)
        self.I.frame = loc

    # ------------------------------------------------------------ construction
    def get(self, modname, name):
        m = self.P.find_module(modname)
        if m is None:
            raise KeyError(modname)
        self.I.frame = self.root
        v = self.P.module_get(self.I, self.st, m, name)
        if v is None:
            raise KeyError(modname + "." + name)
        return v

    def call(self, f, *args, **kw):
        self.I.frame = self.root
        return self.I.call(self.st, f, list(args), kw)

    def attr(self, o, name):
        self.I.frame = self.root
        return self.I.getattr(self.st, o, name)

    def item(self, o, key):
        self.I.frame = self.root
        return self.I.lib.getitem(self.st, o, K(key) if not isinstance(key, Val) else key)

    def alloc(self, c, owner="fresh", birth=()):
        return self.I.alloc(self.st, c, owner=owner, birth=birth)

    def content(self, v):
        return self.I.content(self.st, v)

    # ------------------------------------------------------------ symbolic inputs
    def arr(self, name, *sizes, miss=None, owner="fresh", **fl):
        dims, ix = [], []
        for s in sizes:
            v = Var(name, s)
            dims.append(Dim([v]))
            ix.append(T.idx(v))
        m = ZERO
        if miss:
            m = ONE - T.app(miss, *ix, boolean=True)
        return self.alloc(ArrC(dims, T.app(name, *ix, **fl), m), owner=owner)

    def dataset(self, style="list", votes="scalar", nan=True, owner="input", extra=(), inst_attrs=None):
        """symbolic raw dataset.
        style: list | dict ; votes: scalar | reps"""
        I, st = self.I, self.st
        c = Var("c", C)
        rv = self.alloc(DictC([Ent((), ONE, K("content_id"), N(T.app("cid", T.idx(c)), ZERO, "int")),
                               Ent((), ONE, K("content_name"), N(T.app("cname", T.idx(c)), ZERO, "str")),
                               Ent((), ONE, K("path"), N(T.app("refpath", T.idx(c)), ZERO, "str"))]),
                        owner=owner + ".ref_videos[]", birth=(c,))
        e = Var("e", E)
        te = T.idx(e)
        s = Var("s", S)
        ts = T.idx(s)
        prs = (lambda *a: ONE - T.app("prs", *a, boolean=True)) if nan else (lambda *a: ZERO)
        if style == "list":
            if votes == "scalar":
                el = N(T.app("X", te, ts), prs(te, ts))
            else:
                r = Var("r", R)
                el = self.alloc(ListC([Seg((r,), ONE, N(T.app("X", te, ts, T.idx(r)), prs(te, ts, T.idx(r))))]),
                                owner=owner + ".os[][]", birth=(e, s))
            osv = self.alloc(ListC([Seg((s,), ONE, el)]), owner=owner + ".os", birth=(e,))
        else:
            # dict style: observer key k (abstract value obs(s)); vote defined by presence has(e, k)
            kv = Var("k", T.size("NK"))
            tk = T.idx(kv)
            if votes == "scalar":
                el = N(T.app("Y", te, tk), ZERO)
            else:
                r = Var("r", T.app("nrep", te, tk, pos=True, integer=True))
                el = self.alloc(ListC([Seg((r,), ONE, N(T.app("Y", te, tk, T.idx(r)), ZERO))]),
                                owner=owner + ".os[]", birth=(e, kv))
            q = Var("q", T.app("nvotes", te, nonneg=True, integer=True))
            keys = SeqV([Seg((q,), ONE, N(T.app("okey", te, T.idx(q)), ZERO, "str"))])
            osv = self.alloc(DictC([], (kv, T.app("has", te, tk, boolean=True), el, keys)), owner=owner + ".os", birth=(e,))
        ents = [Ent((), ONE, K("asset_id"), N(T.app("aid", te, integer=True, nonneg=True), ZERO, "int")),
                Ent((), ONE, K("content_id"), N(T.app("dcid", te), ZERO, "int")),
                Ent((), ONE, K("path"), N(T.app("dispath", te), ZERO, "str")),
                Ent((), ONE, K("os"), osv)]
        for k, v in extra:
            ents.append(Ent((), ONE, K(k), v(te)))
        dv = self.alloc(DictC(ents), owner=owner + ".dis_videos[]", birth=(e,))
        rvs = self.alloc(ListC([Seg((c,), ONE, rv)]), owner=owner + ".ref_videos")
        dvs = self.alloc(ListC([Seg((e,), ONE, dv)]), owner=owner + ".dis_videos")
        at = {"dataset_name": N(T.sym("dsname"), ZERO, "str"), "yuv_fmt": N(T.sym("yuvfmt"), ZERO, "str"),
              "width": N(T.sym("width", pos=True), ZERO, "int"), "height": N(T.sym("height", pos=True), ZERO, "int"),
              "ref_videos": rvs, "dis_videos": dvs}
        at.update(inst_attrs or {})
        return self.alloc(InstC(Ext("dataset"), at), owner=owner)

    def small(self, dis, refs, owner="input", tag="V", attrs=None, extra=None):
        """dataset of a given shape with symbolic votes.
        dis: [(asset_id, content_id, path, os)]; os: list, tuple or dict of cells;
        cell: "v" one symbolic vote | None: nan | n: list of n votes | ("t", n): tuple of n votes | ("k", x): constant"""
        rvs = self.alloc(ListC([Seg((), ONE, self.alloc(DictC([Ent((), ONE, K("content_id"), K(cid)), Ent((), ONE, K("content_name"), K("name%d" % cid)),
                                                              Ent((), ONE, K("path"), K(path))]), owner=owner + ".ref_videos[%d]" % i))
                                for i, (cid, path) in enumerate(refs)]), owner=owner + ".ref_videos")

        def vote(e, s, r):
            return N(T.app(tag, T.lift(e), T.lift(s), T.lift(r)), ZERO)

        def cell(e, s, x):
            if x == "v":
                return vote(e, s, 0)
            if x is None:
                return K(float("nan"))
            if isinstance(x, tuple) and x[0] == "k":
                return K(x[1])
            if isinstance(x, tuple):
                return Tup([vote(e, s, r) for r in range(x[1])])
            return self.alloc(ListC([Seg((), ONE, vote(e, s, r)) for r in range(x)]), owner=owner + ".dis_videos[%d].os[%s]" % (e, s))
        out = []
        for e, (aid, cid, path, os_) in enumerate(dis):
            if isinstance(os_, dict):
                o = self.alloc(DictC([Ent((), ONE, Tup([K(y) for y in k]) if isinstance(k, tuple) else K(k), cell(e, i, x)) for i, (k, x) in enumerate(os_.items())]), owner=owner + ".dis_videos[%d].os" % e)
            elif isinstance(os_, tuple):
                o = Tup([cell(e, i, x) for i, x in enumerate(os_)])
            else:
                o = self.alloc(ListC([Seg((), ONE, cell(e, i, x)) for i, x in enumerate(os_)]), owner=owner + ".dis_videos[%d].os" % e)
            ents = [Ent((), ONE, K("asset_id"), K(aid)), Ent((), ONE, K("content_id"), K(cid)), Ent((), ONE, K("path"), K(path)), Ent((), ONE, K("os"), o)]
            for k, f in (extra or {}).items():
                ents.append(Ent((), ONE, K(k), f(e)))
            out.append(self.alloc(DictC(ents), owner=owner + ".dis_videos[%d]" % e))
        dvs = self.alloc(ListC([Seg((), ONE, d) for d in out]), owner=owner + ".dis_videos")
        at = {"dataset_name": K("ds_" + owner), "yuv_fmt": K("yuv420p"), "width": K(1920), "height": K(1080), "ref_videos": rvs, "dis_videos": dvs}
        at.update({k: v if isinstance(v, Val) else K(v) for k, v in (attrs or {}).items()})
        return self.alloc(InstC(Ext("dataset"), at), owner=owner)
