"""Reference definitions of the dataset exports (analysed, never executed).

A dataset is described as a dictionary of its public fields."""
import random


def fields(ds):
    return {k: v for k, v in vars(ds).items() if not k.startswith('__')}


def without(d, key):
    return {k: v for k, v in d.items() if k != key}


def with_(d, key, value):
    out = {k: v for k, v in d.items()}
    out[key] = value
    return out


def header(ds, quality_width=None, quality_height=None, resampling_type=None):
    out = {k: v for k, v in vars(ds).items() if not k.startswith('__')}
    if quality_width is not None:
        out['quality_width'] = quality_width
    if quality_height is not None:
        out['quality_height'] = quality_height
    if resampling_type is not None:
        out['resampling_type'] = resampling_type
    return out


def aggregated(ds, scores, stds=None, content_ids=None, asset_ids=None, **kw):
    out = header(ds, **kw)
    dis = []
    for i in range(len(ds.dis_videos)):
        d = without(ds.dis_videos[i], 'os')
        d['groundtruth'] = scores[i]
        if stds is not None:
            d['groundtruth_std'] = stds[i]
        if content_ids is not None:
            if d['content_id'] not in content_ids:
                continue
        if asset_ids is not None:
            if d['asset_id'] not in asset_ids:
                continue
        dis.append(d)
    out['dis_videos'] = dis
    return out


def persubject(ds, scores):
    """scores: stimulus -> list of votes cast, in subject order"""
    out = header(ds)
    dis = []
    for i in range(len(ds.dis_videos)):
        for v in scores[i]:
            d = without(ds.dis_videos[i], 'os')
            d['groundtruth'] = v
            dis.append(d)
    out['dis_videos'] = dis
    return out


def dictionary_style(ds):
    out = header(ds)
    dis = []
    for dv in ds.dis_videos:
        os = {}
        n = 0
        for v in dv['os']:
            os[ds.dataset_name + '_subject' + str(n)] = v
            n += 1
        dis.append(with_(dv, 'os', os))
    out['dis_videos'] = dis
    return out


def same(ds):
    return header(ds)


def votes(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def named(ds):
    """the votes of a dataset by subject name"""
    if isinstance(ds.dis_videos[0]['os'], dict):
        return [dv['os'] for dv in ds.dis_videos]
    return [dv['os'] for dv in dictionary_style(ds)['dis_videos']]


def combined(first, second):
    out = header(first)
    contents = []
    dis = []
    a, b = named(first), named(second)
    for i in range(len(first.dis_videos)):
        for j in range(len(second.dis_videos)):
            one, two = first.dis_videos[i], second.dis_videos[j]
            if one['path'] != two['path']:
                continue
            if one['content_id'] not in contents:
                contents.append(one['content_id'])
            os = {}
            for k in a[i]:
                if k in b[j]:
                    os[k] = votes(a[i][k]) + votes(b[j][k])
                else:
                    os[k] = a[i][k]
            for k in b[j]:
                if k not in a[i]:
                    os[k] = b[j][k]
            d = with_(one, 'os', os)
            d['content_id'] = contents.index(one['content_id'])
            dis.append(d)
    out['dis_videos'] = dis
    refs = []
    for n in range(len(contents)):
        for r in first.ref_videos:
            if r['content_id'] == contents[n]:
                refs.append(with_(r, 'content_id', n))
                break
    out['ref_videos'] = refs
    return out


def paired(ds, within_content=True, tie='even_split', means=None, rate=None, rates=None):
    """each subject's votes compared pairwise; rates are whole numbers (no sampling) here"""
    out = header(ds)
    dis = [with_(dv, 'os', {}) for dv in ds.dis_videos]
    where = {}
    for i in range(len(dis)):
        where[dis[i]['asset_id']] = i
    os = named_by_index(ds)
    who = []
    for o in os:
        for k in o:
            if k not in who:
                who.append(k)
    for k in who:
        seen = sorted([dis[i]['asset_id'] for i in range(len(dis)) if k in os[i]])
        for x in range(len(seen)):
            for y in range(x):
                i, j = where[seen[x]], where[seen[y]]
                if within_content and dis[i]['content_id'] != dis[j]['content_id']:
                    continue
                p, q = (os[i][k], os[j][k]) if means is None else (means[i], means[j])
                r = rate if rate is not None else (rates[i] + rates[j]) / 2.0 if rates is not None else 1.0
                if r < 1.0:
                    continue
                if p > q:
                    dis[i]['os'][(k, seen[y])] = 1
                elif p < q:
                    dis[j]['os'][(k, seen[x])] = 1
                elif tie == 'even_split':
                    dis[i]['os'][(k, seen[y])] = 0.5
                    dis[j]['os'][(k, seen[x])] = 0.5
    out['dis_videos'] = dis
    return out


def named_by_index(ds):
    if isinstance(ds.dis_videos[0]['os'], dict):
        return [dv['os'] for dv in ds.dis_videos]
    out = []
    for dv in ds.dis_videos:
        o = {}
        n = 0
        for v in dv['os']:
            o[str(n)] = v
            n += 1
        out.append(o)
    return out
