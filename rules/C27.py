"""The report holds exactly what the models report."""
from rules.exports import *

RULE = ("Value-graph equivalence of run_subjective_models, format_output_of_run_subjective_models and the command line with their declared "
        "content: the results of each model on the given file, each number under its own stimulus, subject or content and model name.")
RT = "sureal.routine"
STANDARD = ("P910AnnexEModel", "P913124Model", "BT500Model")
F27 = {
    "list": ([(0, 0, "r0", ["v", 2, "v"]), (1, 0, "p1", ["v", "v", None]), (2, 1, "r1", ["v", "v", "v"])], [(0, "r0"), (1, "r1")]),
    "dict": ([(4, 0, "r0", {"zoe": "v", "Ann": "v"}), (2, 1, "x", {"bob": "v", "Ann": "v", "zoe": "v"}), (9, 1, "r1", {"zoe": "v", "bob": "v"})], [(1, "r1"), (0, "r0")]),
    "tiny": ([(0, 0, "r0", ["v", "v"]), (1, 0, "p1", ["v", "v"])], [(0, "r0"), (1, "r1")]),
}


def files(c, sh, ext):
    if "/" in sh:
        ds = c.dataset(*sh.split("/"), inst_attrs={"ref_score": N(T.sym("refscore"))})
    else:
        ds = ds_of(F27, sh)(c)
    p = "/data/d." + ext
    if ext == "py":
        c.I.files = {p: ds}
    else:
        c.I.files = {p: c.alloc(DictC([Ent((), ONE, K(k), v) for k, v in c.content(ds).attrs.items() if not k.startswith("__")]), owner="input.file")}
    return p, ds


def dct(c, d):
    return c.alloc(DictC([Ent((), ONE, K(k), v if isinstance(v, Val) else K(v)) for k, v in d.items()]), owner="input.arg")


def run27(name, sh, ext, f):
    def go():
        r = Run(name)

        def g(c):
            p, r.ds = files(c, sh, ext)
            return f(c, p, r.ds)
        return r.finish(g)
    return cached(("c27", name), go)


def code(models, kw):
    def f(c, p, ds):
        k = {a: b(c) if callable(b) else K(b) for a, b in kw.items()}
        return c.item(c.call(c.get(RT, "run_subjective_models"), K(p), lst(c, [c.get(SM, m) for m in models]), **k), 2)
    return f


def want(models, kw, reader_="RawDatasetReader"):
    def f(c, p, ds):
        k = {a: b(c) if callable(b) else K(b) for a, b in kw.items()}
        info = k.get("dataset_reader_info_dict") or dct(c, {})
        return c.call(c.get("spec.routine", "runs"), ds, lst(c, [c.get(SM, m) for m in models]), c.get(DR, reader_), info,
                      dct(c, {a: b for a, b in k.items() if not a.startswith(("dataset_reader", "plot", "sort"))}))
    return f


def command(argv):
    """what the command line writes"""
    def f(c, p, ds):
        c.I.argv = [p if a == "@" else a for a in argv]
        c.P.state(c.I, c.P.find_module("sureal"))      # importing a module imports its package
        c.call(c.get("sureal.__main__", "main"))
        w = [e for e in c.I.events if e.kind == "effect" and e.data[0] in ("json.dumps", "fs_write:json.dump")]
        if len(w) != 1 or w[0].pc is not ONE:
            raise Abort("%d results written" % len(w))
        return w[0].data[1][0]
    return f


def command_ref(models, subjects, reader_="RawDatasetReader"):
    def f(c, p, ds):
        cs = [c.get("sureal" if m in STANDARD else SM, m) for m in models]
        res = c.call(c.get("spec.routine", "runs"), ds, lst(c, cs), c.get(DR, reader_), dct(c, {}), dct(c, {}))
        names = c.call(c.get("spec.routine", "names"), ds)
        return c.call(c.get("spec.routine", "report"), lst(c, [c.attr(k, "TYPE") for k in cs]), res, names, lst(c, subjects), lst(c, ["name0", "name1"]))
    return f


def result(c, tag, ne, ns, nc, fields, kind):
    """a result dictionary with the given fields, symbolic numbers"""
    size = {"q": ne, "o": ns, "c": nc}
    ents = {}
    for i, k in enumerate(fields):
        def num(*j):
            return N(T.app(tag, T.const(100 + i), T.const(j[0]), T.const(j[1] if len(j) > 1 else 0)))
        n = size[k[0]] if k[0] in size else 0
        if k in ("aic", "bic"):
            ents[k] = num(0)
        elif k.endswith("ci95"):
            if kind == "array":
                a, b = Var("i", T.const(2)), Var("j", T.const(n))
                ents[k] = c.alloc(ArrC([Dim([a]), Dim([b])], T.app(tag, T.const(100 + i), T.idx(a), T.idx(b)), ZERO), owner="input.arg")
            else:
                ents[k] = lst(c, [lst(c, [num(a, b) for b in range(n)]) for a in range(2)])
        elif k == "observers":
            ents[k] = lst(c, ["zoe", "ann", "bob"][:ns])
        elif k == "dis_video_names":
            ents[k] = lst(c, ["r0", "x", "r1"])
        elif kind == "array":
            a = Var("i", T.const(n))
            ents[k] = c.alloc(ArrC([Dim([a])], T.app(tag, T.const(100 + i), T.idx(a), ZERO), ZERO), owner="input.arg")
        else:
            ents[k] = lst(c, [num(a) for a in range(n)])
    return dct(c, ents)


Q = ["quality_scores", "dis_video_names"]
QF = Q + ["quality_scores_std", "quality_scores_ci95"]
OB = ["observer_bias", "observers", "observer_bias_std", "observer_bias_ci95", "observer_inconsistency", "observer_inconsistency_std", "observer_inconsistency_ci95",
      "observer_scores_mean", "observer_scores_std"]
CO = ["content_ambiguity", "content_ambiguity_std", "content_ambiguity_ci95"]
ST = ["aic", "bic"]
FORMS = {
    "scores only": [Q],
    "scores with deviations": [QF + ST],
    "all fields": [QF + OB + CO + ST],
    "all fields but deviations": [Q + ["quality_scores_ci95", "observer_bias", "observer_inconsistency", "content_ambiguity", "aic"]],
    "subjects without names": [QF + [x for x in OB if x != "observers"]],
    "subjects, no inconsistency": [QF + OB[:4] + ["bic"]],
    "two models, second with subjects": [QF + ST, Q + OB + ST],
    "two models, first with subjects": [QF + OB + CO + ST, QF],
    "two models, different fields": [Q + OB[:2] + CO[:1], QF + OB + CO + ["bic"]],
    "three models": [QF + OB, Q, QF + OB + CO + ST],
}
NAMES = ["MosModel", "SubjectMLEModelProjectionSolver2", "SubjrejMosModel"]


def tasks(tier):
    out = []
    for fn, forms in FORMS.items():
        for kind in ("list", "array"):
            def g(rep, fn=fn, forms=forms, kind=kind):
                ne, ns, nc = 3, 3, 2

                def res(c):
                    return [result(c, ("V", "W", "U")[i], ne, ns, nc, f, kind) for i, f in enumerate(forms)]

                def code_(c, ds):
                    ms = [c.call(c.get(SM, NAMES[i]), reader()(c, ds)) for i in range(len(forms))]
                    return c.call(c.get(RT, "format_output_of_run_subjective_models"), ds, lst(c, ms), lst(c, res(c)))

                def ref(c, ds):
                    ts = [c.attr(c.get(SM, NAMES[i]), "TYPE") for i in range(len(forms))]
                    named = any("observers" in f for f in forms)
                    subj = ["zoe", "ann", "bob"] if named else ["observer0", "observer1", "observer2"]
                    return c.call(c.get("spec.routine", "report"), lst(c, ts), lst(c, res(c)), lst(c, ["r0", "x", "r1"]), lst(c, subj), lst(c, ["name0", "name1"]))
                compare(rep, "report of %s, %s" % (fn, kind), ds_of(F27, "dict"), code_, ref, vscenes(tier))
            out.append(("report/%s/%s" % (fn, kind), g))
    cases = []
    for m in ("MosModel", "SubjrejMosModel", "ZscoringMosModel", "BiasremvSubjrejMosModel", "SubjectMLEModelProjectionSolver2", "LiveDmosModel"):
        for sh in ("list/scalar", "list/reps", "dict/scalar") + (("list",) if m == "MosModel" else ()):
            for ext in ("py", "json"):
                if ext == "json" and m != "MosModel" or m == "SubjectMLEModelProjectionSolver2" and sh != "list/scalar" and tier == "quick":
                    continue
                cases.append(("%s on a %s-style .%s file" % (m, sh, ext), [m], sh, ext, {}, "RawDatasetReader"))
    cases.append(("two models", ["MosModel", "SubjrejMosModel"], "list/scalar", "py", {}, "RawDatasetReader"))
    cases.append(("two models, bias first", ["BiasremvMosModel", "MosModel"], "dict/scalar", "py", {}, "RawDatasetReader"))
    cases.append(("normalised", ["MosModel"], "list", "py", {"normalize_final": True}, "RawDatasetReader"))
    cases.append(("differential", ["MosModel"], "list/scalar", "py", {"dscore_mode": True}, "RawDatasetReader"))
    cases.append(("plot settings", ["MosModel"], "list", "py", {"plot_type": "bar", "sort_quality_scores_in_plot": True}, "RawDatasetReader"))
    sel = lambda c: dct(c, {"selected_subjects": lst(c, [2, 0])})
    cases.append(("selected subjects", ["MosModel"], "list", "py", {"dataset_reader_class": lambda c: c.get(DR, "SelectSubjectRawDatasetReader"), "dataset_reader_info_dict": sel}, "SelectSubjectRawDatasetReader"))
    dis = lambda c: dct(c, {"selected_dis_videos": lst(c, [0, 2])})
    cases.append(("selected videos", ["MosModel"], "list", "py", {"dataset_reader_class": lambda c: c.get(DR, "SelectDisVideoRawDatasetReader"), "dataset_reader_info_dict": dis}, "SelectDisVideoRawDatasetReader"))
    for name, ms, sh, ext, kw, rd in cases:
        def g(rep, name=name, ms=ms, sh=sh, ext=ext, kw=kw, rd=rd):
            a = run27("run of " + name, sh, ext, code(ms, kw))
            b = run27("run of " + name + " (reference)", sh, ext, want(ms, kw, rd))
            value_equal(rep, a.name, a, b, dscenes(tier) if "/" in sh else vscenes(tier))
        out.append(("run/" + name, g))
    lines = [("MOS", ["MOS"], ["MosModel"], "list"), ("P910", ["P910"], ["P910AnnexEModel"], "list"),
             ("MOS and P910", ["MOS", "P910"], ["MosModel", "P910AnnexEModel"], "list"), ("DMOS and MOS", ["DMOS", "MOS"], ["DmosModel", "MosModel"], "list"),
             ("BT500", ["BT500"], ["BT500Model"], "tiny"), ("P913", ["P913"], ["P913124Model"], "tiny")]
    for name, ms, cl, sh in lines:
        for od in (False, True):
            for ext in ("py", "json") if tier == "thorough" or name == "MOS" else ("py",):
                def g(rep, name=name, ms=ms, cl=cl, sh=sh, od=od, ext=ext):
                    argv = ["--dataset", "@", "--models"] + ms + (["--output-dir", "/out"] if od else [])
                    t = "command line: %s on a .%s file%s" % (name, ext, " to a directory" if od else "")
                    a = run27(t, sh, ext, command(argv))
                    n = len(F27[sh][0][0][3])
                    b = run27(t + " (reference)", sh, ext, command_ref(cl, ["observer%d" % i for i in range(n)]))
                    value_equal(rep, t, a, b, vscenes(tier))
                out.append(("command/%s/%s/%s" % (name, od, ext), g))
    for name, ms, cl, sh, flags in (("MOS", ["MOS"], ["MosModel"], "list", {}), ("MOS", ["MOS"], ["MosModel"], "list", {"sort_quality_scores_in_plot": True}),
                                    ("bias", ["BR_MOS"], ["BiasremvMosModel"], "list", {"sort_quality_scores_in_plot": True, "plot_type": "bar"})):
        def g(rep, name=name, ms=ms, cl=cl, sh=sh, flags=flags):
            t = "run of %s with all plots %s" % (name, flags or "")
            a = run27(t, sh, "py", code(cl, dict(flags, do_plot="all")))
            b = run27("run of %s (reference)" % name, sh, "py", want(cl, {}))
            value_equal(rep, t, a, b, vscenes(tier))
        out.append(("plots/%s/%s" % (name, "+".join(sorted(flags))), g))
    return out
