"""Iterations are bounded."""
from rules.base import *
import itertools

RULE = ("Loop analysis: in every iterative estimator, some carried value evolves independently of the data (a counter), and an exit is taken "
        "whatever the data once it reaches the declared cap: every truth assignment to the data-dependent exit conditions leaves the loop.")

CAP = {"SubjectMLEModelProjectionSolver": 1000, "LegacyMaximumLikelihoodEstimationModel": 5000, "MaximumLikelihoodEstimationModel": 10000}


def refs(p, acc, seen):
    """mu keys and other symbols a term depends on, through named sub-terms"""
    if p in seen:
        return
    seen.add(p)
    for a in p.atoms():
        if a.kind == "mu":
            acc.add(("mu", a.data[0], a.data[1]))
        elif a.kind == "let":
            refs(T.LETS[a.data[0]][1], acc, seen)
        elif a.kind == "opq" or (a.kind == "in" and a.opaque):
            acc.add(("opaque", str(a.data[0])))
        elif a.kind in ("in", "sz", "idx") or (a.kind == "c"):
            acc.add(("data", str(a.data[0])))
        for q in T._args_of(a.data):
            refs(q, acc, seen)
        if a.kind in ("sum", "red"):
            for v in (a.data[0] if a.kind == "sum" else a.data[1]):
                refs(v.size, acc, seen)


def deps(p):
    acc = set()
    refs(p, acc, set())
    return acc


def counters(lid, L):
    """carried scalars that depend on nothing but each other"""
    cand = {k: f for k, f in L.fun.items() if f is not None and f[1] is not None and f[2] is not None and not f[0]}
    while True:
        drop = [k for k, f in cand.items() if deps(f[1]) or any(d[0] != "mu" or d[1] != lid or d[2] not in cand for d in deps(f[2]))]
        if not drop:
            return cand
        for k in drop:
            del cand[k]


def expand(p):
    """a boolean term with named sub-terms at the top unfolded"""
    ms = list(p.terms.items())
    if len(ms) == 1 and len(ms[0][0]) == 1:
        (a, e), c = list(ms[0][0])[0], ms[0][1]
        if a.kind == "let" and e == 1 and c == 1 and not a.data[1:]:
            return expand(T.LETS[a.data[0]][1])
    return p


def forced(lid, L, limit=60000):
    """(iterations after which the loop is left whatever the data, None) or (None, reason)"""
    cs = counters(lid, L)
    gs = [expand(g) for _, g in L.exits]
    atoms = {}
    for g in gs:
        for m in g.terms:
            for a, e in m:
                atoms[a] = deps_atom(a)
    free = [a for a, d in atoms.items() if any(x[0] != "mu" or x[1] != lid or x[2] not in cs for x in d)]
    own = [a for a in atoms if a not in free]
    for a in free:
        if any(x[0] == "opaque" for x in atoms[a]):
            return None, "opaque", ""
        if not a.boolean and a.kind != "let":
            return None, "opaque", ""
    if len(free) > 8:
        return None, "opaque", ""
    val = {}
    st = Structure(0, {}, loops={})
    for k, f in cs.items():
        val[k] = st.ev(f[1])
    for t in range(limit):
        st = Structure(0, {}, loops={}, mu=lambda s, a, l, key, args: val[key] if l == lid and key in val else None)
        fixed = {a: st.atom(a, {}) for a in own}
        ok = True
        for bits in itertools.product((0, 1), repeat=len(free)):
            w = dict(fixed)
            w.update(zip(free, bits))
            if not any(sum(c * prod(w[a] ** int(e) for a, e in m) for m, c in g.terms.items()) for g in gs):
                ok = False
                break
        if ok:
            return t + 1, None, ",".join(k.split("@")[0] for k in cs)
        if not own:
            break
        val = {k: st.ev(f[2]) for k, f in cs.items()}
    return None, "unbounded", ",".join(k.split("@")[0] for k in cs)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def deps_atom(a):
    acc = set()
    if a.kind == "mu":
        acc.add(("mu", a.data[0], a.data[1]))
    elif a.kind == "let":
        refs(T.LETS[a.data[0]][1], acc, set())
    elif a.kind == "opq" or (a.kind == "in" and a.opaque):
        acc.add(("opaque", str(a.data[0])))
    elif a.kind in ("in", "sz", "idx", "c"):
        acc.add(("data", str(a.data[0])))
    for q in T._args_of(a.data):
        refs(q, acc, set())
    if a.kind in ("sum", "red"):
        for v in (a.data[0] if a.kind == "sum" else a.data[1]):
            refs(v.size, acc, set())
    return acc


def capped(rep, name, run, cap):
    if not entry_ok(rep, name, run):
        return
    loops = [(i, L) for i, L in run.c.I.loops.items() if L.exits]
    if not loops:
        rep.add(name, "inconclusive", "no conditional loop found", run.name)
        return
    for i, L in loops:
        if L.func and L.func.startswith("spec"):
            continue
        rep.sites[L.site] = rep.sites.get(L.site, 0) + 1
        oid = "%s, loop in %s" % (name, (L.func or "?").split(".")[-1])
        try:
            n, why, cs = forced(i, L)
        except (Undef, Opaque, KeyError, TypeError) as e:
            rep.add(oid, "inconclusive", "%s %s" % (type(e).__name__, e), L.site)
            continue
        if n == cap:
            rep.add(oid, "proved", "left after %d iterations whatever the data (counter %s, %d exits)" % (n, cs, len(L.exits)), L.site)
        elif n is not None:
            rep.add(oid, "violated", "the loop at %s is left after %d iterations whatever the data, declared cap %d" % (L.site, n, cap), L.site)
        elif why == "unbounded":
            rep.add(oid, "violated", "the loop at %s has no exit that is taken whatever the data: the number of iterations is not bounded" % L.site, L.site)
        else:
            rep.add(oid, "inconclusive", "exit condition not modelled", L.site)


def tasks(tier):
    out = []
    opts = [("default", {}), ("uncentred", dict(force_subjbias_zeromean=False)), ("subject rejection", dict(subject_rejection=True))]
    for m in PROJECTION:
        for on, kw in opts:
            out.append(("%s/%s" % (m, on), lambda rep, m=m, on=on, kw=kw: capped(rep, "%s, %s" % (m, on), model_run(m, kw), 1000)))
    for m in MLE + MLE_DMOS:
        for on, kw in opts[:2]:
            out.append(("%s/%s" % (m, on), lambda rep, m=m, on=on, kw=kw: capped(rep, "%s, %s" % (m, on), model_run(m, dict(kw, **mle_kw())), 10000)))
    out.append(("legacy", lambda rep: capped(rep, "LegacyMaximumLikelihoodEstimationModel", model_run("LegacyMaximumLikelihoodEstimationModel"), 5000)))
    return out
