"""The bias gauge."""
from rules.base import *

RULE = ("Relational value-graph analysis of the estimators with the zero-mean bias option on, off and by default: scores and biases "
        "differ exactly by the mean bias, every other output is the same, and the centred biases sum to zero.")


def kw_of(m, **kw):
    d = dict(kw)
    if m in MLE + MLE_DMOS:
        d.update(mle_kw())
    return d


def one(m, tier):
    def f(rep):
        off = model_run(m, kw_of(m, force_subjbias_zeromean=False))
        sc = scenes_of(m, tier) + (tiny_scenes() if m in PROJECTION else [])

        def want(k, d, s):
            if k in ("quality_scores", "observer_bias"):
                if "observer_bias" not in off.outputs():
                    return d[k]
                b = d["observer_bias"]
                mb = sum(b) / len(b)
                return map_den(lambda x: x + mb if k == "quality_scores" else x - mb, d[k])
            return d[k]
        for tag, run in (("on", model_run(m, kw_of(m, force_subjbias_zeromean=True))), ("default", model_run(m, kw_of(m)))):
            keys = sorted(set(run.outputs()) & set(off.outputs())) if run.ok and off.ok else []
            if not (run.ok and off.ok):
                entry_ok(rep, m, run) and entry_ok(rep, m, off)
                return
            keys = [k for k in keys if k not in ("observers",)]
            related(rep, "%s/%s" % (m, tag), run, off, keys, sc, want)
            n = 0
            if "observer_bias" not in off.outputs():
                continue
            for s in sc:
                d = dens(run, run.outputs(), ["observer_bias"], s.structure(run))
                if "observer_bias" in d:
                    tot = sum(x for x in d["observer_bias"])
                    n += 1
                    if abs(tot) > 1e-6 * sum(abs(x) for x in d["observer_bias"]) + 1e-12:
                        rep.add("%s/%s[sum of biases]" % (m, tag), "violated", "structure %s: the biases sum to %s" % (s.name, short(tot)), run.name)
                        n = -1
                        break
            if n >= 0:
                rep.add("%s/%s[sum of biases]" % (m, tag), "agreed" if n else "inconclusive", "%d structures" % n, run.name)
    return f


def tasks(tier):
    return [(m, one(m, tier)) for m in PROJECTION + MLE + MLE_DMOS + ["LegacyMaximumLikelihoodEstimationModel"]]
