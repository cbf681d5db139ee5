SM = "sureal/subjective_model.py"
PRE = '''import io
import sys
import types
import contextlib
import numpy as np


def dataset(table, contents=None, refs=0, ref_score=None):
    """table[e][s] = vote, list of votes or None"""
    d = types.SimpleNamespace(dataset_name="d", yuv_fmt="yuv420p", width=1, height=1)
    E = len(table)
    contents = contents or [0] * E
    d.ref_videos = [{"content_id": c, "content_name": "c%d" % c, "path": "ref%d.yuv" % c} for c in sorted(set(contents))]
    d.dis_videos = []
    seen = set()
    for e in range(E):
        c = contents[e]
        p = "ref%d.yuv" % c if (refs and c not in seen) else "dis%d.yuv" % e
        seen.add(c)
        d.dis_videos.append({"content_id": c, "asset_id": e, "path": p,
                             "os": {"s%d" % s: v for s, v in enumerate(table[e]) if v is not None}})
    if ref_score is not None:
        d.ref_score = ref_score
    return d


def run(model, ds, **kw):
    from sureal.dataset_reader import RawDatasetReader
    with contextlib.redirect_stdout(io.StringIO()):
        return model(RawDatasetReader(ds)).run_modeling(**kw)


def close(a, b, tol=1e-6):
    return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), atol=tol, rtol=tol, equal_nan=True)


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)


'''
SEEDS = [
 dict(id="b01", property="C01", needs="stimuli that received different numbers of votes (a vote not cast)",
  breaks="standard error divides by the largest vote count of the dataset instead of the stimulus's own",
  edits=[(SM, '''            np.nansum(~np.isnan(MosModel._stack_repetitions_along_axis(os_3darray, axis=1)), axis=1)
        )  # std''', '''            np.max(np.nansum(~np.isnan(MosModel._stack_repetitions_along_axis(os_3darray, axis=1)), axis=1))
        )  # std''')],
  demo='''
from sureal.subjective_model import MosModel
t = [[1, 2, 4, 5], [2, 3, None, 5], [None, 1, 2, None]]
r = run(MosModel, dataset(t))
want = []
for row in t:
    v = np.array([x for x in row if x is not None], dtype=float)
    want.append(v.std(ddof=1) / np.sqrt(len(v)))
check(close(r["quality_scores_std"], want), (r["quality_scores_std"], want))
'''),
 dict(id="b02", property="C08", needs="outlier screening of a dataset with repeated presentations",
  breaks="outlying votes of a repeated presentation are charged to the wrong subject",
  edits=[(SM, '''                                    ps[np.mod(idx_s, S)] += 1  # mod to assign repetitions to the correct subject
                                if s <= mu - 2 * sigma:
                                    qs[np.mod(idx_s, S)] += 1''', '''                                    ps[idx_s // R] += 1  # assign repetitions to the correct subject
                                if s <= mu - 2 * sigma:
                                    qs[idx_s // R] += 1''')],
  demo='''
from sureal.subjective_model import SubjrejMosModel
rng = np.random.RandomState(3)
E, S = 6, 8
x = np.round(3 + 1.0 * rng.randn(E, S, 2))
x[:, 2, 0], x[:, 2, 1] = 7, -1
r = run(SubjrejMosModel, dataset([[list(x[e, s]) for s in range(S)] for e in range(E)]))
n = np.zeros(S)
for e in range(E):
    v = x[e].flatten()
    mu, sd = v.mean(), v.std()
    k = ((v - mu) ** 4).mean() / sd ** 4
    lim = 2 if 2 <= k <= 4 else np.sqrt(20)
    for s in range(S):
        n[s] += sum(1 for y in x[e, s] if abs(y - mu) >= lim * sd)
check(n.sum() > 0, "no outlying vote")
check(close(r["observer_rejected_1st_stats"], n / (E * 2)), (r["observer_rejected_1st_stats"], n / (E * 2)))
'''),
 dict(id="b03", property="C09", needs="correlation screening of a dataset with repeated presentations",
  breaks="only the first presentation of every stimulus is correlated with the mean scores",
  edits=[(SM, "s_es = np.nanmean(s_esr,axis=2)  # mean over", "s_es = s_esr[:, :, 0]  # mean over")],
  demo='''
from sureal.subjective_model import SubjrejMosModelPearson
rng = np.random.RandomState(5)
E, S = 8, 6
t = [[[1 + 0.5 * e + 0.3 * rng.randn(), (1 + 0.5 * e if s != 1 else 5 - 0.5 * e) + 0.3 * rng.randn()] for s in range(S)] for e in range(E)]
a = np.array(t)
m = a.mean(axis=2)
mos = m.mean(axis=1)
want = [np.corrcoef(m[:, s], mos)[0, 1] for s in range(S)]
r = run(SubjrejMosModelPearson, dataset(t))
check(close(r["observer_rejected_1st_stats"], want), (r["observer_rejected_1st_stats"], want))
'''),
 dict(id="b04", property="C11", needs="alternating projection on a dataset with repeated presentations",
  breaks="subject weights are attached to the wrong votes when stimuli are presented more than once",
  edits=[(SM, "weights=np.tile(w_i, R),", "weights=np.repeat(w_i, R),")],
  demo='''
from sureal.subjective_model import SubjectMLEModelProjectionSolver
rng = np.random.RandomState(7)
E, S, R = 10, 5, 2
q = rng.uniform(1, 5, E)
x = np.array([[[q[e] + 0.2 * s + (0.1 + 0.4 * s) * rng.randn() for r in range(R)] for s in range(S)] for e in range(E)])
res = run(SubjectMLEModelProjectionSolver, dataset([[list(x[e, s]) for s in range(S)] for e in range(E)]))
q, b = x.mean(axis=(1, 2)), None
b = (x - q[:, None, None]).mean(axis=(0, 2))
for _ in range(1000):
    v = (x - q[:, None, None] - b[None, :, None]).transpose(1, 0, 2).reshape(S, -1).std(axis=1)
    w = 1 / (v ** 2 + 1e-8)
    p = q
    q = ((x - b[None, :, None]) * w[None, :, None]).sum(axis=(1, 2)) / (w.sum() * R)
    b = (x - q[:, None, None]).mean(axis=(0, 2))
    if np.linalg.norm(p - q) < 1e-8:
        break
check(close(res["quality_scores"], q + b.mean(), 1e-5), (res["quality_scores"], q))
'''),
]
