import importlib.util, os
_s = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
PRE = _m.PRE
SM = _m.SM
DR = "sureal/dataset_reader.py"
PC = "sureal/pc_subjective_model.py"
RT = "sureal/routine.py"
MI = "sureal/tools/misc.py"
DE = "sureal/tools/decorator.py"
PM = "sureal/perf_metric.py"
SEEDS = [
 dict(id="b05", property="C02", needs="an iterative estimate on votes of different offset (the stopping test depends on the size of the scores)",
  breaks="the alternating projection stops on the relative change, so a shifted dataset stops elsewhere",
  edits=[(SM, '''            delta_s_j = linalg.norm(s_j_prev - s_j)
''', '''            delta_s_j = linalg.norm(s_j_prev - s_j) / max(linalg.norm(s_j), 1.0)
''')],
  demo='''
from sureal.subjective_model import SubjectMLEModelProjectionSolver as M
rng = np.random.RandomState(1)
x = np.round(rng.uniform(1, 5, (12, 9)))
a = run(M, dataset(x.tolist()))
b = run(M, dataset((x + 1e6).tolist()))
check(abs(np.array(b["quality_scores"]) - np.array(a["quality_scores"]) - 1e6).max() < 1e-6 and a["num_iter"] == b["num_iter"], (a["num_iter"], b["num_iter"]))
'''),
 dict(id="b06", property="C03", needs="a vote exactly at the lower outlier limit",
  breaks="the lower limit is exclusive while the upper one is inclusive: reflecting the scale changes the counts",
  edits=[(SM, '''                                if s <= mu - 2 * sigma:''', '''                                if s < mu - 2 * sigma:''')],
  demo='''
from sureal.subjective_model import SubjrejMosModel as M
# eight votes, one outlying by exactly two standard deviations: mean 0, sd 1, kurtosis 3
h = np.sqrt(0.5)
x = [[2.0, -2.0, 1.0, -1.0, 1.0, -1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]] * 3
a = run(M, dataset(x))
t = [[3.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0]] * 3
import itertools
found = None
for n1, n2, z in itertools.product(range(1, 4), range(0, 6), range(1, 12)):
    v = np.array([4.0] * n1 + [1.0] * n2 + [0.0] * z)
    mu, sd = v.mean(), v.std()
    k = ((v - mu) ** 4).mean() / sd ** 4
    if v.max() == mu + 2 * sd and 2 <= k <= 4 and (-v).min() == -v.mean() - 2 * (-v).std():
        found = v
        break
if found is None:
    for v in itertools.product([-4.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0], repeat=6):
        v = np.array(v)
        mu, sd = v.mean(), v.std()
        if sd == 0:
            continue
        k = ((v - mu) ** 4).mean() / sd ** 4
        w = -v
        if 2 <= k <= 4 and v.max() == mu + 2 * sd and w.min() == w.mean() - 2 * w.std():
            found = v
            break
assert found is not None
a = run(M, dataset([found.tolist()] * 3))
b = run(M, dataset([(-found).tolist()] * 3))
check(close(a["observer_rejected_1st_stats"], b["observer_rejected_1st_stats"]), (a["observer_rejected_1st_stats"], b["observer_rejected_1st_stats"]))
'''),
 dict(id="b07", property="C14", needs="maximum-likelihood estimate on a dataset where some votes were not cast",
  breaks="the chi-square interval of the inconsistency counts presentations, not votes cast",
  edits=[(SM, '''            cnt_s = np.sum(~np.isnan(SubjectiveModel._stack_repetitions_along_axis(x_esr, axis=0)), axis=0)  # number of samples along i
''', '''            cnt_s = np.array([E * R] * S)  # number of samples along i
''')],
  demo='''
from scipy.stats import chi2
from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
rng = np.random.RandomState(1)
x = np.round(rng.uniform(1, 5, (8, 6))).tolist()
for e, s in [(0, 0), (1, 0), (2, 0), (3, 0), (5, 3), (6, 4)]:
    x[e][s] = None
r = run(M, dataset(x, [0, 0, 0, 0, 1, 1, 1, 1]))
n = np.array([sum(x[e][s] is not None for e in range(8)) for s in range(6)])
v = np.array(r["observer_inconsistency"])
check(close(r["observer_inconsistency_ci95"][0], (1 - np.sqrt(n / chi2.ppf(0.975, df=n))) * v), r["observer_inconsistency_ci95"])
'''),
 dict(id="b08", property="C07", needs="differential scoring where subjects voted on the reference a different number of times",
  breaks="the reference mean weighs subjects, not votes",
  edits=[(SM, '''            E, S, R = s_esr.shape
            s_e = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(s_esr, axis=1), axis=1)  # mean along s
            s_e_ref =''', '''            E, S, R = s_esr.shape
            s_e = np.nanmean(np.nanmean(s_esr, axis=2), axis=1)  # mean along r, then along s
            s_e_ref =''')],
  demo='''
from sureal.subjective_model import DmosModel as M
x = [[[1, 2], 5, 4], [2, [3, 1], 3], [4, 2, [5, 5]]]
d = dataset(x, refs=1, ref_score=5.0)
r = run(M, d)
vs = [np.hstack([np.array(v).ravel() for v in row]) for row in x]
check(close(r["quality_scores"], [v.mean() - vs[0].mean() + 5.0 for v in vs]), r["quality_scores"])
'''),
 dict(id="b09", property="C10", needs="bias removal where a subject voted on some stimuli more often than on others",
  breaks="the bias is the mean over stimuli of per-stimulus means instead of over the votes cast",
  edits=[(SM, '''            delta_s = np.nanmean(SubjectiveModel._stack_repetitions_along_axis(delta_es, axis=0), axis=0)  # mean along e
''', '''            delta_s = np.nanmean(np.nanmean(delta_es, axis=2), axis=0)  # mean along r, then along e
''')],
  demo='''
from sureal.subjective_model import BiasremvMosModel as M
x = [[[1, 2], 5, 4], [2, [3, 1], 3], [4, 2, [5, 5]]]
r = run(M, dataset(x))
mos = [np.hstack([np.array(v).ravel() for v in row]).mean() for row in x]
want = [np.hstack([np.array(x[e][s]).ravel() - mos[e] for e in range(3)]).mean() for s in range(3)]
check(close(r["observer_bias"], want), (r["observer_bias"], want))
'''),
 dict(id="b10", property="C12", needs="the trajectory of the maximum-likelihood iteration (e.g. a loose threshold), not its limit",
  breaks="the score update uses the content ambiguity of before its own update",
  edits=[(SM, '''            if gradient_method == 'simplified':
                a_c_e = np.array([a_c[i] for i in dataset_reader.content_id_of_dis_videos])
                num_num = x_esr - np.tile(b_s, (E, 1))[:, :, None]
''', '''            if gradient_method == 'simplified':
                num_num = x_esr - np.tile(b_s, (E, 1))[:, :, None]
''')],
  demo='''
from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
rng = np.random.RandomState(1)
x = np.round(rng.uniform(1, 5, (8, 6)))
c = [0, 0, 0, 0, 1, 1, 1, 1]
a = run(M, dataset(x.tolist(), c), delta_thr=1e6)
b = run(M, dataset(x.tolist(), c), delta_thr=1e6, gradient_method="original")
check(a["num_iter"] == 1 and b["num_iter"] == 1, "one step")
check(close(a["quality_scores"], b["quality_scores"], 1e-9), (a["quality_scores"], b["quality_scores"]))
'''),
 dict(id="b11", property="C13", needs="a dataset from which outlier screening rejects a subject",
  breaks="the Bayesian criterion takes the votes left after screening instead of the votes cast",
  edits=[(SM, '''        aic = 2 * dof - 2 * loglikelihood  # aic per observation
        result['aic'] = aic

        bic = np.log(original_num_os) * dof - 2 * loglikelihood  # bic per observation
        result['bic'] = bic

        return result

    @classmethod
    def _get_reconstructions(cls, x_e, S, R):''', '''        aic = 2 * dof - 2 * loglikelihood  # aic per observation
        result['aic'] = aic

        bic = np.log(num_os) * dof - 2 * loglikelihood  # bic per observation
        result['bic'] = bic

        return result

    @classmethod
    def _get_reconstructions(cls, x_e, S, R):''')],
  demo='''
from sureal.subjective_model import SubjrejMosModelPearson as M
rng = np.random.RandomState(5)
x = [[1 + 0.5 * e + 0.3 * rng.randn() if s != 1 else 5 - 0.5 * e for s in range(6)] for e in range(8)]
r = run(M, dataset(x))
check(any(r["observer_rejected"]), "someone is rejected")
check(close([r["bic"]], [np.log(48) * r["dof"] - 2 * r["loglikelihood"]]), r["bic"])
'''),
 dict(id="b12", property="C15", needs="alternating projection on a dataset where some votes were not cast",
  breaks="the biases are centred by their vote-weighted mean and no longer sum to zero",
  edits=[(SM, '''            mean_b_i = np.mean(b_i)
''', '''            mean_b_i = np.average(b_i, weights=cnt_i)
''')],
  demo='''
from sureal.subjective_model import SubjectMLEModelProjectionSolver as M
rng = np.random.RandomState(1)
x = np.round(rng.uniform(1, 5, (8, 6))).tolist()
for e, s in [(0, 0), (1, 0), (2, 0), (3, 0), (5, 3), (6, 4)]:
    x[e][s] = None
r = run(M, dataset(x))
check(abs(sum(r["observer_bias"])) < 1e-9, sum(r["observer_bias"]))
'''),
 dict(id="b13", property="C16", needs="final normalisation of a model that reports standard errors",
  breaks="normalising the scores also rescales their reported standard errors",
  edits=[(SM, '''            quality_scores = np.array(result['quality_scores'])
            quality_scores = (quality_scores - np.mean(quality_scores)) / \\
                             np.std(quality_scores)
''', '''            quality_scores = np.array(result['quality_scores'])
            if result.get('quality_scores_std') is not None:
                result['quality_scores_std'] = list(np.array(result['quality_scores_std']) / np.std(quality_scores))
            quality_scores = (quality_scores - np.mean(quality_scores)) / \\
                             np.std(quality_scores)
''')],
  demo='''
from sureal.subjective_model import MosModel as M
x = [[1, 2, 5], [2, 3, 3], [4, 4, 5]]
check(close(run(M, dataset(x))["quality_scores_std"], run(M, dataset(x), normalize_final=True)["quality_scores_std"]), "std")
'''),
 dict(id="b14", property="C17", needs="a caller who uses one transform dictionary more than once",
  breaks="the caller's transform dictionary gains entries",
  edits=[(SM, '''            output_scores = np.zeros(quality_scores.shape)
            if 'p2' in transform_final:''', '''            output_scores = np.zeros(quality_scores.shape)
            transform_final.setdefault('p0', 0.0)
            if 'p2' in transform_final:''')],
  demo='''
from sureal.subjective_model import MosModel as M
t = {"p1": 2.0}
run(M, dataset([[1, 2, 5], [2, 3, 3]]), transform_final=t)
check(t == {"p1": 2.0}, t)
'''),
 dict(id="b15", property="C18", needs="two readers of one dataset, one of them of selected stimuli, in a particular order",
  breaks="the list of observers is kept on the dataset and served to readers that present other stimuli",
  edits=[(DR, '''        list_observers = []
        for dis_video in self.dis_videos:
            list_observers += dis_video['os'].keys()

        return get_unique_sorted_list(list_observers)

    def _get_max''', '''        if not hasattr(self.dataset, '__observers__'):
            list_observers = []
            for dis_video in self.dis_videos:
                list_observers += dis_video['os'].keys()
            self.dataset.__observers__ = get_unique_sorted_list(list_observers)

        return list(self.dataset.__observers__)

    def _get_max''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader, SelectDisVideoRawDatasetReader
x = [[1, 2, 3], [4, None, 2], [5, None, 1]]
a = SelectDisVideoRawDatasetReader(dataset(x), input_dict={"selected_dis_videos": [1, 2]}).opinion_score_3darray
d = dataset(x)
RawDatasetReader(d).opinion_score_3darray
b = SelectDisVideoRawDatasetReader(d, input_dict={"selected_dis_videos": [1, 2]}).opinion_score_3darray
check(a.shape == b.shape and close(a, b), (a.shape, b.shape))
'''),
 dict(id="b16", property="C19", needs="an explicit threshold together with votes on which the iteration does not converge",
  breaks="the iteration cap is lifted when a threshold is given",
  edits=[(SM, '''            if delta_x_e < delta_thr:
                break

            if itr >= MAX_ITR:
                break''', '''            if delta_x_e < delta_thr:
                break

            if itr >= MAX_ITR and 'delta_thr' not in kwargs:
                break''')],
  demo='''
import signal
from sureal.subjective_model import MaximumLikelihoodEstimationModelContentOblivious as M
def late(*a):
    print("FAIL: still iterating")
    import os
    os._exit(1)
signal.signal(signal.SIGALRM, late)
signal.alarm(150)
r = run(M, dataset([[1, 2, 5], [2, 3, 3], [4, 4, 5]]), delta_thr=-1.0)
check(r["num_iter"] == 10000, r["num_iter"])
'''),
 dict(id="b17", property="C06", needs="a stimulus whose path is the reference of another content",
  breaks="a stimulus counts as reference if its path is that of any reference",
  edits=[(DR, '''        d = self._contentid_to_refvideo_map
        return list(map(
            lambda dis_video: d[dis_video['content_id']]['path'] == dis_video['path'],
            self.dis_videos
        ))''', '''        ref_paths = set(ref_video['path'] for ref_video in self.dataset.ref_videos)
        return list(map(
            lambda dis_video: dis_video['path'] in ref_paths,
            self.dis_videos
        ))''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader
d = dataset([[1, 2], [3, 4], [5, 1]], contents=[0, 1, 1])
d.dis_videos[1]["path"] = "ref0.yuv"
d.dis_videos[2]["path"] = "ref1.yuv"
check(RawDatasetReader(d).disvideo_is_refvideo == [False, False, True], RawDatasetReader(d).disvideo_is_refvideo)
'''),
 dict(id="b18", property="C20", needs="an export restricted to some contents, of a model that reports deviations",
  breaks="deviations are attached after the filter and land on the wrong stimuli",
  edits=[(DR, '''        # add scores std if available
        if 'scores_std' in kwargs and kwargs['scores_std'] is not None:
            assert len(dis_videos) == len(kwargs['scores_std'])
            for dis_video, score_std in zip(dis_videos, kwargs['scores_std']):
                dis_video['groundtruth_std'] = score_std

        if 'aggregate_content_ids' in kwargs and kwargs['aggregate_content_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['content_id'] in kwargs['aggregate_content_ids'], dis_videos))

        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['asset_id'] in kwargs['aggregate_asset_ids'], dis_videos))
''', '''        if 'scores_std' in kwargs and kwargs['scores_std'] is not None:
            assert len(dis_videos) == len(kwargs['scores_std'])

        if 'aggregate_content_ids' in kwargs and kwargs['aggregate_content_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['content_id'] in kwargs['aggregate_content_ids'], dis_videos))

        if 'aggregate_asset_ids' in kwargs and kwargs['aggregate_asset_ids'] is not None:
            dis_videos = list(filter(lambda dis_video: dis_video['asset_id'] in kwargs['aggregate_asset_ids'], dis_videos))

        # add scores std if available
        if 'scores_std' in kwargs and kwargs['scores_std'] is not None:
            for dis_video, score_std in zip(dis_videos, kwargs['scores_std']):
                dis_video['groundtruth_std'] = score_std
''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader
d = dataset([[1, 2], [3, 4], [5, 1]], contents=[0, 1, 1])
a = RawDatasetReader(d).to_aggregated_dataset([1.0, 2.0, 3.0], scores_std=[0.1, 0.2, 0.3], aggregate_content_ids=[1])
check([v["groundtruth_std"] for v in a.dis_videos] == [0.2, 0.3], a.dis_videos)
'''),
 dict(id="b19", property="C21", needs="a vote of 0 in a list-style dataset",
  breaks="votes of 0 are lost in the dictionary-style export",
  edits=[(DR, '''                for idx, score in enumerate(dis_video['os']):
                    subj_name''', '''                for idx, score in enumerate(dis_video['os']):
                    if not score:
                        continue
                    subj_name''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader
d = dataset([[1, 2], [3, 4]])
for v, os_ in zip(d.dis_videos, ([0, 2], [3, 0])):
    v["os"] = os_
a = RawDatasetReader(d).to_dictionary_style_dataset()
check([len(v["os"]) for v in a.dis_videos] == [2, 2], a.dis_videos)
'''),
 dict(id="b20", property="C22", needs="stimuli of several contents in alternating order",
  breaks="a stimulus of a content already seen gets the number of the content seen last",
  edits=[(DR, '''                    else:
                        new_content_id = content_ids_in.index(vid1['content_id'])

                    new_dis_video''', '''                    else:
                        new_content_id = len(content_ids_in) - 1

                    new_dis_video''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader
d = dataset([[1, 2], [3, 4], [5, 1]], contents=[0, 1, 0])
a = RawDatasetReader(d).to_combined_overlap_dataset(RawDatasetReader(dataset([[1, 2], [3, 4], [5, 1]], contents=[0, 1, 0])))
check([v["content_id"] for v in a.dis_videos] == [0, 1, 0], [v["content_id"] for v in a.dis_videos])
'''),
 dict(id="b21", property="C23", needs="asset ids that are not positions, and given per-stimulus scores",
  breaks="given scores are looked up by asset id instead of position",
  edits=[(DR, '''                                mscore = per_asset_mean_scores[d_assetid_disvideoidx[assetid]]
                                mscore2 = per_asset_mean_scores[d_assetid_disvideoidx[assetid2]]''', '''                                mscore = per_asset_mean_scores[assetid]
                                mscore2 = per_asset_mean_scores[assetid2]''')],
  demo='''
from sureal.dataset_reader import RawDatasetReader
d = dataset([[1, 2], [3, 4], [5, 1]])
for v, a in zip(d.dis_videos, [2, 0, 1]):
    v["asset_id"] = a
p = RawDatasetReader(d).to_pc_dataset(per_asset_mean_scores=[1.0, 2.0, 3.0])
check([len(v["os"]) for v in p.dis_videos] == [0, 2, 4], p.dis_videos)
'''),
 dict(id="b22", property="C24", needs="paired comparisons of a dataset whose stimuli are not listed in asset-id order",
  breaks="results are filed under asset ids instead of positions",
  edits=[(DR, '''                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                pvs_i = i_dis_video''', '''                pvs_j = asset_id_j
                pvs_i = dis_video['asset_id']''')],
  demo='''
from sureal.dataset_reader import PairedCompDatasetReader
d = dataset([[1], [1], [1]])
for v, a, o in zip(d.dis_videos, [2, 0, 1], [{("s", 0): 1}, {("s", 1): 1}, {("s", 2): 0}]):
    v["asset_id"], v["os"] = a, o
x = PairedCompDatasetReader(d).opinion_score_3darray[:, :, 0]
check(x[0, 1] == 1 and x[1, 0] == 0 and x[1, 2] == 1 and x[2, 0] == 0, x)
'''),
 dict(id="b23", property="C25", needs="differential scoring of a dataset with two stimuli that are the reference of one content",
  breaks="an ambiguous reference is accepted",
  edits=[(SM, "            assert len(ref_indices) == 1, \\", "            assert len(ref_indices) >= 1, \\")],
  demo='''
from sureal.subjective_model import DmosModel
d = dataset([[1, 2], [3, 4], [5, 1]], ref_score=5.0)
d.dis_videos[0]["path"] = d.dis_videos[1]["path"] = "ref0.yuv"
try:
    run(DmosModel, d)
except AssertionError:
    sys.exit(0)
check(False, "accepted")
'''),
 dict(id="b24", property="C26", needs="flipping only some votes of subjects, of more than one subject",
  breaks="the limits of the scale are taken from the already flipped subject",
  edits=[(DR, '''            min_score = np.nanmin(score_mtx)
            max_score = np.nanmax(score_mtx)

            for subject in selected_subjects:

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score + min_score''', '''            for subject in selected_subjects:

                min_score = np.nanmin(score_mtx[:, subject, :])
                max_score = np.nanmax(score_mtx)

                if corrupt_probability is not None:
                    videos = list(np.where(np.random.uniform(size=num_video) < corrupt_probability)[0])
                    score_mtx[videos, subject, :] = max_score + min_score''')],
  demo='''
from sureal.dataset_reader import CorruptSubjectRawDatasetReader as R
x = R(dataset([[1, 2], [3, 4], [5, 2]]), input_dict={"selected_subjects": [1], "corrupt_behavior": "flip", "corrupt_probability": 1.0}).opinion_score_3darray
check(close(x[:, 1, 0], [4, 2, 4]) and close(x[:, 0, 0], [1, 3, 5]), x)
'''),
 dict(id="b25", property="C27", needs="a report of two models with an asymmetric interval",
  breaks="the report repeats the lower half-width of the interval of the inconsistency",
  edits=[(RT, "for idx, observer_inconsistency_ci95 in enumerate(list(zip(*result['observer_inconsistency_ci95']))):", "for idx, observer_inconsistency_ci95 in enumerate([(ci, ci) for ci in result['observer_inconsistency_ci95'][0]]):")],
  demo='''
import os, tempfile, shutil
from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
from sureal.subjective_model import SubjectMLEModelProjectionSolver as M
t = tempfile.mkdtemp()
try:
    p = os.path.join(t, "d.py")
    d = dataset(np.round(np.random.RandomState(1).uniform(1, 5, (8, 6))).tolist())
    with open(p, "w") as f:
        f.write("dataset_name = 'd'\\nref_videos = %r\\ndis_videos = %r\\n" % (d.ref_videos, d.dis_videos))
    with contextlib.redirect_stdout(io.StringIO()):
        ds, ms, rs = run_subjective_models(p, [M])
        o = format_output_of_run_subjective_models(ds, ms, rs)
finally:
    shutil.rmtree(t)
for i, ob in enumerate(o["observers"]):
    want = [c[i] for c in rs[0]["observer_inconsistency_ci95"]]
    check(close(ob["models"][M.TYPE]["observer_inconsistency_ci95"], want), (ob, want))
'''),
 dict(id="b26", property="C29", needs="raw votes as truth with the mapping requested",
  breaks="the logistic mapping is fitted to the truth with the extremes not widened at the lower end",
  edits=[(PM, '''        ys_max = np.max(ys) + 0.1
        ys_min = np.min(ys) - 0.1
''', '''        ys_max = np.max(ys) + 0.1
        ys_min = min(np.min(ys) - 0.1, 0.9)
''')],
  demo='''
from sureal.perf_metric import RmsePerfMetric
g, p = [11.0, 12.0, 14.0, 13.0], [1.0, 2.0, 4.0, 3.5]
a = RmsePerfMetric(g, p).evaluate(enable_mapping=True)["score"]
hi, lo = 14.1, 10.9
y = (np.array(g) - lo) / (hi - lo)
z = -np.log(1 / y - 1)
A = np.vstack([np.ones(4), z]).T
c = np.linalg.lstsq(A, np.array(p), rcond=None)[0]
m = 1 / (1 + np.exp(-(np.array(p) - c[0]) / c[1])) * (hi - lo) + lo
check(close([a], [np.sqrt(((m - np.array(g)) ** 2).mean())]), a)
'''),
 dict(id="b27", property="C30", needs="a function whose process finishes while others wait, with few processes allowed",
  breaks="the parallel map stops when no process waits, so results of running ones are missing",
  edits=[(MI, '''        if len(waiting_procs) == 0 and len(active_procs) == 0:
            break
''', '''        if len(waiting_procs) == 0 and len(active_procs) < max_active_procs:
            break
''')],
  demo='''
import time
from sureal.tools.misc import parallel_map
def f(x):
    time.sleep(0.3 * x)
    return x * x
try:
    r = parallel_map(f, [0, 4], processes=2)
except KeyError as e:
    check(False, e)
check(r == [0, 16], r)
'''),
 dict(id="b28", property="C05", needs="likelihood of a mean-based model where some votes were not cast",
  breaks="the mean log density divides by the number of presentations instead of votes",
  edits=[(SM, '''        num_os = np.sum(~np.isnan(os_3darray))

        result['reconstructions']''', '''        num_os = os_3darray.size

        result['reconstructions']''')],
  demo='''
from sureal.subjective_model import MosModel as M
x = [[1, 2, 5], [2, 3, None], [4, 4, 5]]
a = run(M, dataset(x))["loglikelihood"]
ll = []
for row in x:
    v = np.array([c for c in row if c is not None], dtype=float)
    s = v.std(ddof=1)
    ll += list(np.log(1 / np.sqrt(2 * np.pi) / s * np.exp(-(v - v.mean()) ** 2 / 2 / s ** 2)))
check(close([a], [np.mean(ll)]), a)
'''),
 dict(id="b29", property="C04", needs="rank correlation screening of votes with ties",
  breaks="ties are ranked by position, so the order of stimuli decides the correlation",
  edits=[(SM, "r[obs_idx], _ = stats.spearmanr(s_es[:, obs_idx][~nans], mos[~nans])", "r[obs_idx], _ = stats.pearsonr(stats.rankdata(s_es[:, obs_idx][~nans], method='ordinal'), stats.rankdata(mos[~nans]))")],
  demo='''
from sureal.subjective_model import SubjrejMosModelSpearman as M
x = np.round(np.random.RandomState(3).uniform(1, 5, (9, 6)))
p = [3, 1, 8, 0, 2, 5, 7, 6, 4]
a = run(M, dataset(x.tolist()))
b = run(M, dataset(x[p].tolist()))
check(close(a["observer_rejected_1st_stats"], b["observer_rejected_1st_stats"]), (a["observer_rejected_1st_stats"], b["observer_rejected_1st_stats"]))
'''),
 dict(id="b30", property="C28", needs="a stopping test on votes that converge slowly, or a table with missing cells",
  breaks="residue deviations of the standalone program come from the previous round's scores of other stimuli",
  edits=[], demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
