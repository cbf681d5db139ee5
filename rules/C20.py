"""Aggregated export."""
from rules.exports import *

RULE = ("Value-graph equivalence of the exported dataset with its declared content: every public field and every stimulus of the source, "
        "in order, without the raw votes and with the given score (and deviation), filtered by content and asset id.")

SCORES = {
    "list": lambda c, n: symlist(c, "V", n),
    "array": lambda c, n: symarr(c, "V", n),
}
OPTS = {
    "plain": (dict(), dict()),
    "std": (dict(scores_std="W"), dict(stds="W")),
    "std none": (dict(scores_std=None), dict()),
    "content ids": (dict(aggregate_content_ids=[1]), dict(content_ids=[1])),
    "asset ids": (dict(aggregate_asset_ids=[2, 5]), dict(asset_ids=[2, 5])),
    "both": (dict(scores_std="W", aggregate_content_ids=[0, 1], aggregate_asset_ids=[9, 0, 3, 2]), dict(stds="W", content_ids=[0, 1], asset_ids=[9, 0, 3, 2])),
    "neither": (dict(aggregate_content_ids=[], aggregate_asset_ids=[0]), dict(content_ids=[], asset_ids=[0])),
    "format": (dict(quality_width=640, quality_height=360, resampling_type="lanczos"), dict(quality_width=640, quality_height=360, resampling_type="lanczos")),
    "format none": (dict(quality_width=None, quality_height=None), dict()),
}


def args(c, d, n, mk):
    out = {}
    for k, v in d.items():
        out[k] = mk(c, "W", n) if v == "W" else lst(c, v) if isinstance(v, list) else K(v)
    return out


def tasks(tier):
    out = []
    for sh in SHAPES:
        n = len(SHAPES[sh][0])
        for sn, sc in SCORES.items():
            for on, (ko, ks) in OPTS.items():
                def g(rep, sh=sh, n=n, sn=sn, sc=sc, on=on, ko=ko, ks=ks):
                    mk = symlist if sn == "list" else symarr
                    compare(rep, "aggregated %s, %s scores, %s" % (sh, sn, on), ds_of(SHAPES, sh),
                            lambda c, ds: call(c, reader()(c, ds), "to_aggregated_dataset", sc(c, n), **args(c, ko, n, mk)),
                            lambda c, ds: c.call(c.get("spec.exports", "aggregated"), ds, sc(c, n), **args(c, ks, n, mk)), vscenes(tier))
                out.append(("%s/%s/%s" % (sh, sn, on), g))

    def anysize(rep, style, votes, sn, on, ko, ks):
        """datasets of every size: lists of symbolic length"""
        def arr(c, tag):
            x = c.arr(tag, E, owner="input.arg")
            if sn == "array":
                return x
            a = c.content(x)
            return c.alloc(ListC([Seg((a.dims[0].vars[0],), ONE, N(a.val, ZERO))]), owner="input.arg")

        def opts(c, d):
            return {k: arr(c, "Q2") if v == "W" else lst(c, v) if isinstance(v, list) else K(v) for k, v in d.items()}
        sc = [DScene(s.name, s.sizes["E"], s.sizes["S"], s.sizes["R"], s.sizes["C"], s.seed, s.p, {q: (lambda st, e, q=q, n=s.seed: round(5 * u(n, q, e), 3)) for q in ("Q", "Q2")}) for s in dscenes(tier)]
        ko = {k: ([10, 16, 0, 1] if isinstance(v, list) and v else v) for k, v in ko.items()}
        ks = {k: ([10, 16, 0, 1] if isinstance(v, list) and v else v) for k, v in ks.items()}
        compare(rep, "aggregated %s-style dataset of any size, %s votes, %s scores, %s" % (style, votes, sn, on), sym(style, votes),
                lambda c, ds: call(c, reader()(c, ds), "to_aggregated_dataset", arr(c, "Q"), **opts(c, ko)),
                lambda c, ds: c.call(c.get("spec.exports", "aggregated"), ds, arr(c, "Q"), **opts(c, ks)), sc)
    for style in ("list", "dict"):
        for votes in ("scalar", "reps"):
            for sn in ("list", "array"):
                for on in ("plain", "std", "content ids", "asset ids", "both", "format"):
                    out.append(("any/%s/%s/%s/%s" % (style, votes, sn, on), lambda rep, a=(style, votes, sn, on) + OPTS[on]: anysize(rep, *a)))

    def model(rep, m):
        mk = ds_of(SHAPES, "list ragged")

        def run(c, ds):
            o = c.call(c.get(SM, m), reader()(c, ds))
            call(c, o, "run_modeling")
            return call(c, o, "to_aggregated_dataset", aggregate_content_ids=lst(c, [0]))

        def want(c, ds):
            o = c.call(c.get(SM, m), reader()(c, ds))
            r = call(c, o, "run_modeling")
            return c.call(c.get("spec.exports", "aggregated"), ds, c.item(r, "quality_scores"), c.item(r, "quality_scores_std"), content_ids=lst(c, [0]))
        compare(rep, "aggregated by model %s" % m, mk, run, want, vscenes(tier))
    for m in ("MosModel", "BiasremvMosModel"):
        out.append((m, lambda rep, m=m: model(rep, m)))
    return out
