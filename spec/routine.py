"""Reference definitions of the top-level routines (analysed, never executed)."""
import numpy as np

FIELDS = {
    'quality_scores': ('dis_videos', 'quality_score'),
    'quality_scores_std': ('dis_videos', 'quality_score_std'),
    'observer_bias': ('observers', 'observer_bias'),
    'observer_bias_std': ('observers', 'observer_bias_std'),
    'observer_inconsistency': ('observers', 'observer_inconsistency'),
    'observer_inconsistency_std': ('observers', 'observer_inconsistency_std'),
    'observer_scores_mean': ('observers', 'observer_scores_mean'),
    'observer_scores_std': ('observers', 'observer_scores_std'),
    'content_ambiguity': ('contents', 'content_ambiguity'),
    'content_ambiguity_std': ('contents', 'content_ambiguity_std'),
}
INTERVALS = {
    'quality_scores_ci95': ('dis_videos', 'quality_score_ci95'),
    'observer_bias_ci95': ('observers', 'observer_bias_ci95'),
    'observer_inconsistency_ci95': ('observers', 'observer_inconsistency_ci95'),
    'content_ambiguity_ci95': ('contents', 'content_ambiguity_ci95'),
}
NEEDS = {'dis_videos': 'quality_scores', 'observers': 'observer_bias', 'contents': 'content_ambiguity'}
LABEL = {'dis_videos': 'dis_video_name', 'observers': 'observer', 'contents': 'content'}


def section(sec, names, types, results):
    """one entry per name, in order; per model exactly the fields it reports"""
    out = []
    for i in range(len(names)):
        entry = {LABEL[sec]: names[i], 'models': {}}
        for t, r in zip(types, results):
            if NEEDS[sec] not in r:
                continue
            m = {}
            for k in FIELDS:
                if FIELDS[k][0] == sec and k in r:
                    m[FIELDS[k][1]] = r[k][i]
            for k in INTERVALS:
                if INTERVALS[k][0] == sec and k in r:
                    m[INTERVALS[k][1]] = (r[k][0][i], r[k][1][i])
            entry['models'][t] = m
        out.append(entry)
    return out


def report(types, results, stimuli, subjects, contents):
    out = {'dis_videos': section('dis_videos', stimuli, types, results)}
    if any(['observer_bias' in r for r in results]):
        out['observers'] = section('observers', subjects, types, results)
    if any(['content_ambiguity' in r for r in results]):
        out['contents'] = section('contents', contents, types, results)
    stats = {}
    for t, r in zip(types, results):
        m = {}
        for k in ('aic', 'bic'):
            if k in r:
                m[k] = r[k]
        if len(m) > 0:
            stats[t] = m
    if len(stats) > 0:
        out['stats'] = {'models': stats}
    return out


def rank(x):
    return [sum([1.0 if b < a else 0.0 for b in x]) + (sum([1.0 if b == a else 0.0 for b in x]) + 1) / 2.0 for a in x]


def rmse(x, y):
    return np.sqrt(sum([(a - b) ** 2 for a, b in zip(x, y)]) / len(x))


def pcc(x, y):
    n = len(x)
    mx = sum([a for a in x]) / n
    my = sum([a for a in y]) / n
    sxy = sum([(a - mx) * (b - my) for a, b in zip(x, y)])
    sxx = sum([(a - mx) ** 2 for a in x])
    syy = sum([(a - my) ** 2 for a in y])
    return sxy / np.sqrt(sxx * syy)


def srcc(x, y):
    return pcc(rank(x), rank(y))


def kendall(x, y):
    p = [(a, b) for a, b in zip(x, y)]
    s = sum([(1.0 if a > c else -1.0 if a < c else 0.0) * (1.0 if b > d else -1.0 if b < d else 0.0) for a, b in p for c, d in p])
    dx = sum([1.0 if a != c else 0.0 for a in x for c in x])
    dy = sum([1.0 if a != c else 0.0 for a in y for c in y])
    return s / np.sqrt(dx * dy)


def run(ds, cls, reader_class, info, options):
    """what one model reports on a dataset, with the names of the stimuli and the quality of the reconstruction"""
    r = cls(reader_class(ds, input_dict=info)).run_modeling(**options)
    out = {k: v for k, v in r.items()}
    out['dis_video_names'] = [d['path'] for d in reader_class(ds, input_dict=info).dis_videos]
    if 'raw_scores' in r and 'reconstructions' in r:
        a = r['raw_scores']
        b = r['reconstructions']
        xs = []
        ys = []
        for e in range(a.shape[0]):
            for s in range(a.shape[1]):
                for k in range(a.shape[2]):
                    if not np.isnan(a[e, s, k]) and not np.isnan(b[e, s, k]):
                        xs.append(a[e, s, k])
                        ys.append(b[e, s, k])
        out['reconstruction_stats'] = {'rmse': rmse(xs, ys), 'cc': pcc(xs, ys), 'srocc': srcc(xs, ys)}
    return out


def runs(ds, classes, reader_class, info, options):
    return [run(ds, c, reader_class, info, options) for c in classes]


def names(ds):
    return [d['path'] for d in ds.dis_videos]
