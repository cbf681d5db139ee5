"""Votes are read from the dataset as written."""
from rules.readers import *

RULE = ("Value-graph equivalence of what the reader and the mean-opinion-score model obtain from a dataset with the votes written in it "
        "(list, tuple and dictionary style; scalar, list and tuple votes; ragged repetitions).")

WHAT = {
    "votes": (lambda c, ds: c.attr(reader()(c, ds), "opinion_score_3darray"), {"list": "votes_list", "dict": "votes_dict"}),
    "references": (lambda c, ds: c.attr(reader()(c, ds), "disvideo_is_refvideo"), {"list": "is_reference", "dict": "is_reference"}),
    "contents": (lambda c, ds: c.attr(reader()(c, ds), "content_id_of_dis_videos"), {"list": "content_of", "dict": "content_of"}),
    "number of subjects": (lambda c, ds: c.attr(reader()(c, ds), "num_observers"), {"list": "num_subjects_list", "dict": "num_subjects_dict"}),
    "scores": (lambda c, ds: c.item(c.call(c.attr(c.call(c.get(SM, "MosModel"), reader()(c, ds)), "run_modeling")), "quality_scores"), {"list": "mos_list", "dict": "mos_dict"}),
    "subject names": (lambda c, ds: c.item(c.call(c.attr(c.call(c.get(SM, "MosModel"), reader()(c, ds)), "run_modeling")), "observers"), {"dict": "subjects"}),
}


def tasks(tier):
    out = []
    for what, (f, sp) in WHAT.items():
        for style in ("list", "dict"):
            if style not in sp:
                continue
            for votes in ("scalar", "reps"):
                def g(rep, what=what, f=f, sp=sp, style=style, votes=votes):
                    mk = sym(style, votes)
                    n = "%s of %s-style dataset, %s votes" % (what, style, votes)
                    value_equal(rep, n, run_on(n, mk, f), run_on(n + " (reference)", mk, spec(sp[style])), dscenes(tier))
                out.append(("%s/%s/%s" % (what, style, votes), g))
        for sh in SHAPES:
            style = "dict" if sh.startswith("dict") else "list"
            if style not in sp or (sh == "dict empty stimulus" and what == "scores"):
                continue

            def g(rep, what=what, f=f, sp=sp, sh=sh, style=style):
                n = "%s of dataset shape %s" % (what, sh)
                value_equal(rep, n, run_on(n, shape(sh), f), run_on(n + " (reference)", shape(sh), spec(sp[style])), vscenes(tier))
            out.append(("%s/%s" % (what, sh), g))
    return out
