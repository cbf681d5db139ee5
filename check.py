#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Static analysis of /repo's current source.  Exit 0: no violation; exit 1: VIOLATION line(s)."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")


class Timeout(BaseException):
    pass


def work(args):
    pid, tier, seed, name, limit, deadline = args
    sys.setrecursionlimit(200000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3600 << 20, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    from rules.base import Report
    rep = Report(pid, tier, seed)
    t0 = time.time()

    def stop(*a):
        raise Timeout()
    left = min(limit, deadline - t0)
    if left < 1:
        rep.add(name, "inconclusive", "time limit of the whole check")
        return name, rep.obs, [], {}, [], [], 0.0
    signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, left, 2)
    try:
        mod = importlib.import_module("rules." + pid)
        dict(mod.tasks(tier))[name](rep)
    except Timeout:
        signal.setitimer(signal.ITIMER_REAL, 0)
        rep.add(name, "inconclusive", "time limit of %d s" % left)
    except RecursionError:
        rep.add(name, "inconclusive", "recursion limit")
    except MemoryError:
        rep.add(name, "inconclusive", "memory")
    except Exception as e:
        rep.add(name, "inconclusive", "analysis error: %s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return name, rep.obs, sorted(rep.scenes), rep.bools, sorted(rep.funcs), rep.notes, time.time() - t0


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out[(f["property"], f["key"])] = l.split(None, 3)[3].strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module("rules." + pid)
    tasks = mod.tasks(tier)
    limit, total = (300, 620) if tier == "quick" else (1800, 7000)
    jobs = [(pid, tier, seed, n, limit, t0 + total) for n, _ in tasks]
    nproc = int(os.environ.get("SA_PROCS", "8"))
    if nproc <= 1:
        res = [work(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=1) as pool:
            res = pool.map(work, jobs, chunksize=1)
    kf = known()
    obs, scenes, bools, funcs, notes, per = [], set(), {}, set(), [], {}
    for n, o, sc, b, f, nt, w in res:
        obs += o
        scenes |= set(sc)
        for k, v in b.items():
            bools[k] = bools.get(k, 0) | v
        funcs |= set(f)
        notes += nt
        per[n] = {"obligations": len(o), "wall_s": round(w, 1)}
    bad, kn = [], []
    for o in obs:
        if o[1] == "violated":
            t = kf.get((pid, o[0]))
            (kn if t else bad).append((o, t))
    cnt = {s: sum(1 for o in obs if o[1] == s) for s in ("proved", "agreed", "inconclusive", "violated")}
    EV = os.environ.get("SA_EVID", os.path.join(HERE, "evidence"))
    os.makedirs(EV, exist_ok=True)
    replay = os.path.join(EV, pid + ".replay.json")
    if bad:
        json.dump([{"obligation": o[0], "construct": o[3], "detail": o[2]} for o, _ in bad], open(replay, "w"), indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "%s %d obligations over %d analysed entry points: %d decided by identical normal form (all inputs), "
                           "%d by interpretation of the extracted terms in %d structures, %d inconclusive." % (
                               mod.RULE, len(obs), len(tasks), cnt["proved"], cnt["agreed"], len(scenes), cnt["inconclusive"]),
            "obligations": len(obs), "proved_by_normal_form": cnt["proved"], "agreed_in_all_structures": cnt["agreed"],
            "inconclusive": cnt["inconclusive"], "violated": len(bad), "known_findings": len(kn),
            "structures": len(scenes), "branch_conditions": len(bools),
            "branch_conditions_seen_both_ways": sum(1 for v in bools.values() if v == 3),
            "functions_analysed": len(funcs),
            "functions": sorted(funcs)[:200],
            "entry_points": per,
            "inconclusive_list": [[o[0], o[2]] for o in obs if o[1] == "inconclusive"][:40],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "numeric values are mathematical reals (rounding is not modelled)",
            "library models in sa/lib.py and sa/lib_ext.py agree with numpy, scipy, pandas and the standard library"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    print("%s %s: %d obligations: %d proved, %d agreed, %d inconclusive, %d violated (%d functions, %.1f s)" % (
        pid, tier, len(obs), cnt["proved"], cnt["agreed"], cnt["inconclusive"], cnt["violated"], len(funcs), time.time() - t0))
    if os.environ.get("SA_VERBOSE"):  # development
        for o in obs:
            if o[1] in ("proved", "agreed") and os.environ["SA_VERBOSE"] != "2":
                continue
            print("  ", o[1], o[0], o[2][:200], o[3])
        for n in per:
            if per[n]["wall_s"] > 20:
                print("  ", n, per[n])
    for o, t in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o[0], t))
    for o, _ in bad[:20]:
        print("  %s [%s]: %s" % (o[0], o[3], o[2][:300]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        try:
            h = resource.getrlimit(resource.RLIMIT_STACK)[1]
            resource.setrlimit(resource.RLIMIT_STACK, (h, h))
        except (ValueError, OSError):
            pass
    if os.environ.get("SA_STACK") != "1":
        os.environ["SA_STACK"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
