"""Reference definitions for datasets and readers (analysed, never executed)."""
import numpy as np


def many(v):
    return isinstance(v, (list, tuple))


def votes_list(ds):
    """stimulus x subject x repetition, list-style datasets"""
    first = ds.dis_videos[0]['os']
    n = 1
    for dv in ds.dis_videos:
        for v in dv['os']:
            if many(v):
                n = max(n, len(v))
    X = np.full([len(ds.dis_videos), len(first), n], np.nan)
    for e, dv in enumerate(ds.dis_videos):
        for s, v in enumerate(dv['os']):
            if many(v):
                X[e, s, :len(v)] = v
            else:
                X[e, s, 0] = v
    return X


def subjects(ds):
    names = []
    for dv in ds.dis_videos:
        names += dv['os'].keys()
    return sorted(set(names))


def votes_dict(ds):
    names = subjects(ds)
    n = 1
    for dv in ds.dis_videos:
        for k in dv['os']:
            if many(dv['os'][k]):
                n = max(n, len(dv['os'][k]))
    X = np.full([len(ds.dis_videos), len(names), n], np.nan)
    for e, dv in enumerate(ds.dis_videos):
        for s, name in enumerate(names):
            if name in dv['os']:
                v = dv['os'][name]
                if many(v):
                    X[e, s, :len(v)] = v
                else:
                    X[e, s, 0] = v
    return X


def is_reference(ds):
    return [sum(1 for rv in ds.ref_videos if rv['content_id'] == dv['content_id'] and rv['path'] == dv['path']) > 0
            for dv in ds.dis_videos]


def content_of(ds):
    return [dv['content_id'] for dv in ds.dis_videos]


def num_subjects_list(ds):
    return len(ds.dis_videos[0]['os'])


def num_subjects_dict(ds):
    return len(subjects(ds))


def mos(X):
    n = np.sum(np.sum(~np.isnan(X), axis=2), axis=1)
    return list(np.nansum(np.nansum(X, axis=2), axis=1) / n)


def mos_list(ds):
    return mos(votes_list(ds))


def mos_dict(ds):
    return mos(votes_dict(ds))
