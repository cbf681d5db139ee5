"""Reordering subjects, stimuli or repetitions."""
from rules.base import *

RULE = "Relational value-graph analysis: output terms under an arbitrary reordering of subjects, stimuli or repetitions."


def perm(n, seed):
    p = sorted(range(n), key=lambda i: rnd("perm", seed, n, i))
    if p == list(range(n)) and n > 1:
        p[0], p[1] = p[1], p[0]
    return p


def subjects(sc):
    p = perm(sc.sizes["S"], sc.seed)
    v, q = sc.vote, sc.present
    s2 = sc.variant(sc.name + "/subjects", vote=lambda e, s, r: v(e, p[s], r), present=lambda e, s, r: q(e, p[s], r))
    s2.p = p
    return s2


def stimuli(sc):
    p = perm(sc.sizes["E"], sc.seed)
    v, q = sc.vote, sc.present
    s2 = sc.variant(sc.name + "/stimuli", vote=lambda e, s, r: v(p[e], s, r), present=lambda e, s, r: q(p[e], s, r))
    n = sc.sizes["C"]
    s2.extra = dict(sc.extra)
    s2.extra.update({"dcid": lambda st, e: p[e] % n, "dispath": lambda st, e: 1000 + p[e] if p[e] < n else 2000 + p[e]})
    s2.p = p
    return s2


def repetitions(sc):
    R_ = sc.sizes["R"]
    v, q = sc.vote, sc.present
    # an independent reordering of the repetitions of every (stimulus, subject)
    def pi(e, s):
        return perm(R_, (sc.seed, e, s)) if (e + s) % 2 else list(range(R_))
    return sc.variant(sc.name + "/repetitions", vote=lambda e, s, r: v(e, s, pi(e, s)[r]), present=lambda e, s, r: q(e, s, pi(e, s)[r]))


def sel(a, p):
    return [a[i] for i in p] if isinstance(a, list) and len(a) == len(p) else None


def one(m, kind, tier):
    def f(rep):
        run = run_of(m)
        if not entry_ok(rep, m, run):
            return
        change = {"subjects": subjects, "stimuli": stimuli, "repetitions": repetitions}[kind]
        cache = {}

        def ch(sc):
            cache[sc.name] = change(sc)
            return cache[sc.name]

        def relate(k, a, sc):
            s2 = cache[sc.name]
            if k in ("observers", "num_iter"):
                return None
            if kind == "repetitions":
                return None if k == "raw_scores" or (m == "PerSubjectModel") else a
            p = s2.p
            if kind == "subjects":
                if k in PER_SUBJECT:
                    return sel(a, p)
                if k in PER_SUBJECT_CI:
                    return [sel(x, p) for x in a]
                if k in ("raw_scores", "reconstructions") or (m == "PerSubjectModel" and k == "quality_scores"):
                    if m in REJECTING:
                        return None
                    return [sel(x, p) for x in a]
                return a
            if k in PER_STIMULUS + ("raw_scores", "reconstructions"):
                return sel(a, p)
            if k in PER_STIMULUS_CI:
                return [sel(x, p) for x in a]
            return a
        scenes = [s for s in scenes_of(m, tier) if kind != "repetitions" or s.sizes["R"] > 1]
        transformed(rep, "%s/%s" % (m, kind), run, scenes, ch, relate, [k for k in run.outputs() if k not in ("observers", "num_iter") and not
                    (kind == "repetitions" and (k == "raw_scores" or m == "PerSubjectModel")) and not
                    (kind == "subjects" and m in REJECTING and k in ("raw_scores", "reconstructions"))])
    return f


def tasks(tier):
    out = []
    for m in all_models():
        for kind in ("subjects", "stimuli", "repetitions"):
            if kind == "repetitions" and m in SINGLE:
                continue
            out.append(("%s/%s" % (m, kind), one(m, kind, tier)))
    return out
