"""Ways to spoil a dataset or an argument (analysed, never executed)."""
import numpy as np


def no_os(ds):
    del ds.dis_videos[1]['os']
    return ds


def os_number(ds):
    ds.dis_videos[1]['os'] = 3.0
    return ds


def os_string(ds):
    ds.dis_videos[1]['os'] = '345'
    return ds


def os_none(ds):
    ds.dis_videos[1]['os'] = None
    return ds


def os_set(ds):
    ds.dis_videos[2]['os'] = {1, 2}
    return ds


def os_short(ds):
    ds.dis_videos[1]['os'] = ds.dis_videos[1]['os'][:2]
    return ds


def os_long(ds):
    ds.dis_videos[2]['os'] = list(ds.dis_videos[2]['os']) + [1.0]
    return ds


def last_short(ds):
    ds.dis_videos[-1]['os'] = ds.dis_videos[-1]['os'][1:]
    return ds


def mixed_style(ds):
    ds.dis_videos[1]['os'] = [1.0, 2.0]
    return ds


def mixed_style2(ds):
    ds.dis_videos[1]['os'] = {'x': 1.0, 'y': 2.0, 'z': 3.0}
    return ds


def unknown_content(ds):
    ds.dis_videos[1]['content_id'] = 7
    return ds


def unknown_content_last(ds):
    ds.dis_videos[-1]['content_id'] = 2
    return ds


def gap_content(ds):
    ds.ref_videos[1]['content_id'] = 2
    ds.dis_videos[2]['content_id'] = 1
    return ds


def negative_content(ds):
    ds.dis_videos[1]['content_id'] = -1
    return ds


def negative_reference(ds):
    ds.ref_videos[1]['content_id'] = -1
    ds.dis_videos[1]['content_id'] = 0
    ds.dis_videos[2]['content_id'] = -1
    return ds


def no_ref_score(ds):
    ds.ref_score = None
    return ds


def second_reference(ds):
    """two stimuli of content 0 are its reference"""
    ds.dis_videos[1]['content_id'] = 0
    ds.dis_videos[1]['path'] = ds.ref_videos[0]['path']
    return ds


def no_reference(ds):
    for dv in ds.dis_videos:
        dv['path'] = dv['path'] + '.other'
    return ds


def pc_value(ds):
    ds.dis_videos[0]['os'][('Ann', 1)] = 2
    return ds


def pc_value_small(ds):
    ds.dis_videos[1]['os'][('Ann', 0)] = 0.25
    return ds


def pc_negative(ds):
    ds.dis_videos[1]['os'][('Ann', 0)] = -1
    return ds


def pc_asset(ds):
    ds.dis_videos[1]['asset_id'] = 5
    return ds


def pc_asset_negative(ds):
    ds.dis_videos[1]['asset_id'] = -1
    return ds


def pc_key_name(ds):
    ds.dis_videos[0]['os'][(3, 1)] = 1
    return ds


def pc_key_asset(ds):
    ds.dis_videos[0]['os'][('Ann', 'b')] = 1
    return ds


def pc_unknown_asset(ds):
    ds.dis_videos[0]['os'][('Ann', 9)] = 1
    return ds


def pc_list(ds):
    ds.dis_videos[0]['os'] = [1, 0, 1]
    return ds
