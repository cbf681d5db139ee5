"""Conversion to paired comparisons."""
from rules.exports import *

RULE = ("Value-graph equivalence of the converted dataset with its declared content: for every subject and every pair of stimuli it voted on "
        "(of one content, unless asked otherwise) exactly one result, a win for the higher vote, split on ties.")

PCS = {
    "list": ([(0, 0, "r0", ["v", "v"]), (1, 0, "b", ["v", "v"]), (2, 1, "r1", ["v", "v"])], [(0, "r0"), (1, "r1")]),
    "tuple": ([(5, 1, "p", ("v", "v")), (3, 1, "r1", ("v", "v")), (8, 1, "q", ("v", "v"))], [(0, "r0"), (1, "r1")]),
    "dict": ([(7, 0, "r0", {"zoe": "v", "Ann": "v"}), (2, 0, "b", {"bob": "v", "Ann": "v"}), (9, 1, "r1", {"zoe": "v", "bob": "v"}), (4, 0, "d", {"zoe": "v", "Ann": "v"})], [(0, "r0"), (1, "r1")]),
    "one subject": ([(0, 0, "r0", {"q": "v"}), (1, 0, "y", {}), (2, 0, "z", {"q": "v"})], [(0, "r0")]),
}
OPTS = {
    "default": (dict(), dict()),
    "within content": (dict(pc_type="within_subject_within_content", tiebreak_method="even_split"), dict()),
    "all pairs": (dict(pc_type="within_subject"), dict(within_content=False)),
    "none": (dict(pc_type=None, tiebreak_method=None, sampling_rate=None), dict()),
    "rate 1": (dict(sampling_rate=1.0, pc_type="within_subject"), dict(within_content=False, rate=1.0)),
    "rate 0": (dict(sampling_rate=0.0, pc_type="within_subject"), dict(within_content=False, rate=0.0)),
    "rates": (dict(per_asset_sampling_rates="01"), dict(rates="01")),
    "means": (dict(per_asset_mean_scores="W"), dict(means="W")),
    "no coin": (dict(cointoss_rate=0.0), dict()),
    "no noise": (dict(noise_level=0.0), dict()),
}


# options with chance in them: every result must still be one of the admissible ones
CHANCE = {
    "coin-toss ties": dict(tiebreak_method="coin_toss", pc_type="within_subject"),
    "coin-toss ties within content": dict(tiebreak_method="coin_toss"),
    "half sampled": dict(sampling_rate=0.5, pc_type="within_subject"),
    "half sampled, seeded": dict(sampling_rate=0.5, sampling_seed=7),
    "rate 1.5": dict(sampling_rate=1.5),
    "some sampled": dict(per_asset_sampling_rates="half", pc_type="within_subject"),
    "coin": dict(cointoss_rate=0.5, pc_type="within_subject"),
    "always coin": dict(cointoss_rate=1.0),
    "some coin": dict(per_asset_cointoss_rates="half", pc_type="within_subject"),
    "noise": dict(noise_level=0.7, pc_type="within_subject"),
    "some noise": dict(per_asset_noise_levels="half", pc_type="within_subject"),
    "noisy means": dict(per_asset_mean_scores="W", noise_level=0.7),
    "sampled means": dict(per_asset_mean_scores="W", per_asset_sampling_rates="half", tiebreak_method="coin_toss"),
}


def admissible(rep, sh, on, opts, tier):
    n = len(PCS[sh][0])
    oid = "paired comparisons of %s, %s" % (sh, on)
    r = run_on(oid, ds_of(PCS, sh), lambda c, ds: call(c, reader()(c, ds), "to_pc_dataset", **args(c, opts, n)))
    if not entry_ok(rep, oid, r):
        return
    dis = PCS[sh][0]
    m = 0
    for sc in vscenes(tier) + [VScene("votes/%d" % i, 30 + i, grid=(2, 3)[i % 2]) for i in range(4)]:
        st = sc.structure(r)
        try:
            d = D.den(r.c, r.c.st, r.val, st)
        except Opaque as o:
            continue
        rep.scenes.add(sc.name)
        t = sc.tables()
        got = [v[D.strcode("os")] for v in d[D.strcode("dis_videos")]]
        why = bad_pair(dis, got, opts, t)
        if why:
            rep.add(oid, "violated", "structure %s: %s" % (sc.name, why), r.name)
            return
        m += 1
    rep.add(oid, "agreed" if m else "inconclusive", "%d structures" % m, r.name)


def bad_pair(dis, got, opts, t):
    pos = {d[0]: i for i, d in enumerate(dis)}
    rate = {"half": lambda i: (0.0, 1.0)[i % 2]}
    def subj(i):
        o = dis[i][3]
        return {k: s for s, k in enumerate(o)} if isinstance(o, dict) else {str(s): s for s in range(len(o))}
    code = {}
    for i in range(len(dis)):
        for k in subj(i):
            code[D.strcode(k)] = k
    for i, g in enumerate(got):
        for key, v in g.items():
            if key[0] not in code or key[1] not in pos:
                return "unknown pair %s" % short(list(key))
            k, j = code[key[0]], pos[key[1]]
            if k not in subj(i) or k not in subj(j):
                return "subject %s compares a stimulus it did not vote on" % k
            if opts.get("pc_type") != "within_subject" and dis[i][1] != dis[j][1]:
                return "stimuli %d and %d of different contents are compared" % (i, j)
            if v not in (1, 0.5):
                return "result %s" % v
    for i in range(len(dis)):
        for j in range(i):
            for k in subj(i):
                if k not in subj(j):
                    continue
                a, b = got[i].get((D.strcode(k), dis[j][0])), got[j].get((D.strcode(k), dis[i][0]))
                within = opts.get("pc_type") == "within_subject" or dis[i][1] == dis[j][1]
                sr = opts.get("sampling_rate", 1.0)
                if opts.get("per_asset_sampling_rates"):
                    sr = (rate["half"](i) + rate["half"](j)) / 2
                name = "subject %s, stimuli %d and %d" % (k, i, j)
                if a is None and b is None:
                    if within and sr >= 1:
                        return name + " are not compared"
                    continue
                if sr <= 0:
                    return name + " are compared at sampling rate 0"
                noisy = "noise_level" in opts or (opts.get("per_asset_noise_levels") and (i % 2 or j % 2))
                if sr <= 1 or not noisy:
                    if not ((a == 1 and b is None) or (b == 1 and a is None) or (a == b == 0.5)):
                        return name + ": results %s and %s" % (a, b)
                cr = opts.get("cointoss_rate", 0)
                if opts.get("per_asset_cointoss_rates"):
                    cr = (rate["half"](i) + rate["half"](j)) / 2
                if not noisy and not cr and sr <= 1:
                    p, q = (t["W"](None, 90, i, 0), t["W"](None, 90, j, 0)) if opts.get("per_asset_mean_scores") else (t["V"](None, i, subj(i)[k], 0), t["V"](None, j, subj(j)[k], 0))
                    if (p > q and a != 1) or (p < q and b != 1):
                        return name + ": votes %s and %s give results %s and %s" % (p, q, a, b)
                    if p == q and (opts.get("tiebreak_method") == "coin_toss") != (a == 1 or b == 1):
                        return name + ": tie gives results %s and %s" % (a, b)
                if cr >= 1 and a == 0.5:
                    return name + ": coin toss gives a tie"
    return None


def args(c, d, n):
    out = {}
    for k, v in d.items():
        out[k] = symlist(c, "W", n) if v == "W" else lst(c, [float(2 * (i % 2)) for i in range(n)]) if v == "01" else lst(c, [float(i % 2) for i in range(n)]) if v == "half" else K(v)
    return out


def tasks(tier):
    out = []
    for sh in PCS:
        for on, (ko, ks) in OPTS.items():
            def g(rep, sh=sh, on=on, ko=ko, ks=ks):
                n = len(PCS[sh][0])
                compare(rep, "paired comparisons of %s, %s" % (sh, on), ds_of(PCS, sh),
                        lambda c, ds: call(c, reader()(c, ds), "to_pc_dataset", **args(c, ko, n)),
                        lambda c, ds: c.call(c.get("spec.exports", "paired"), ds, **args(c, ks, n)), vscenes(tier))
            out.append(("%s/%s" % (sh, on), g))
        for on, opts in CHANCE.items():
            out.append(("%s/%s" % (sh, on), lambda rep, a=(sh, on, opts): admissible(rep, *a, tier)))
    return out
