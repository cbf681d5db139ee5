"""Uses of the decorators and of parallel_map (analysed, never executed)."""
from sureal.tools.decorator import memoized, persist_to_file, persist_to_dir
from sureal.tools.misc import parallel_map


def first(*a):
    return {'by': 'first', 'args': [x for x in a], 'n': len(a)}


def second(*a):
    return {'by': 'second', 'args': [x for x in a], 'n': len(a)}


def plain(argss):
    return [first(*a) for a in argss] + [second(*a) for a in argss]


def memo(argss):
    f = memoized(first)
    g = memoized(second)
    out = [f(*a) for a in argss]
    return out + [g(*a) for a in argss]


def in_file(argss):
    f = persist_to_file('/cache/c.json')(first)
    out = [f(*a) for a in argss]
    g = persist_to_file('/cache/c.json')(second)
    return out + [g(*a) for a in argss]


def in_dir(argss):
    f = persist_to_dir('/cache/d')(first)
    g = persist_to_dir('/cache/d')(second)
    out = [f(*a) for a in argss]
    return out + [g(*a) for a in argss]


def in_file_later(argss):
    """a later process finds what an earlier one stored"""
    f = persist_to_file('/cache/c.json')(first)
    for a in argss[1:]:
        f(*a)
    f = persist_to_file('/cache/c.json')(first)
    out = [f(*a) for a in argss]
    g = persist_to_file('/cache/c2.json')(second)
    return out + [g(*a) for a in argss]


def in_dir_later(argss):
    f = persist_to_dir('/cache/d')(first)
    for a in argss[1:]:
        f(*a)
    f = persist_to_dir('/cache/d')(first)
    g = persist_to_dir('/cache/d')(second)
    out = [f(*a) for a in argss]
    return out + [g(*a) for a in argss]


class Thing:

    def __init__(self, name):
        self.name = name

    @memoized
    def tell(self, x):
        return [self.name, x]


def method(names, xs):
    things = [Thing(n) for n in names]
    out = [t.tell(x) for x in xs for t in things]
    return out + [t.tell(x) for t in things for x in xs]


def method_plain(names, xs):
    out = [[n, x] for x in xs for n in names]
    return out + [[n, x] for n in names for x in xs]


def spread(xs, n, kind):
    if kind == 'iterator':
        xs = zip([x for x in xs], [2 * x for x in xs])
    elif kind == 'tuple':
        xs = tuple(xs)
    return parallel_map(first, xs, processes=n, pause_sec=None)


def spread_plain(xs, n, kind):
    if kind == 'iterator':
        xs = [(x, 2 * x) for x in xs]
    return [first(x) for x in xs]
