# coding=utf-8
"""what harnesses import"""
from .models import (CData, Comment, X, file_exists, read_csv, read_xml, write_csv, write_xml)  # noqa
from .explore import PropertyFail, Skip  # noqa
from .core import plain, mk, parts_of  # noqa


class H(object):
    """a harness: fn(ctx) drives the code under test and states the assertions"""

    def __init__(self, name, fn, bounds, params=None, thorough=None, reach=(), quick_s=100.0, thorough_s=600.0,
                 random_order=False, run_cpu_s=20.0, max_paths=10 ** 6, only=None):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.base = dict(params or {})
        self.deep = dict(self.base, **(thorough or {}))
        self.params = self.base
        self.reach = list(reach)
        self.quick_s = quick_s
        self.thorough_s = thorough_s
        self.random_order = random_order
        self.run_cpu_s = run_cpu_s
        self.max_paths = max_paths
        self.only = only

    def set_tier(self, tier):
        self.params = self.deep if tier == "thorough" else self.base
        self.budget = self.thorough_s if tier == "thorough" else self.quick_s


def get(ctx, d, k, msg):
    """d[k] for a mapping with possibly symbolic keys; a missing key fails the property"""
    kk = rkey(ctx, d, k)
    if kk not in d:
        ctx.fail("%s: no entry for %r" % (msg, plain(k)))
    return d[kk]


def rkey(ctx, d, k):
    if ctx.symbolic:
        from .instrument import resolve_key
        return resolve_key(d, k)
    return k


def has(ctx, d, k):
    return rkey(ctx, d, k) in d


def same_items(ctx, got, want, msg):
    """equal as multisets (elements: strings or tuples of strings)"""
    got, want = list(got), list(want)
    left = list(got)
    if len(got) != len(want):
        ctx.fail("%s: got %s, expected %s" % (msg, _pl(got), _pl(want)))
    for w in want:
        for i, g in enumerate(left):
            if _teq(g, w):
                del left[i]
                break
        else:
            ctx.fail("%s: got %s, expected %s" % (msg, _pl(got), _pl(want)))


def _teq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_teq(x, y) for x, y in zip(a, b))
    return a == b


def _pl(x):
    if isinstance(x, str):
        return plain(x)
    if isinstance(x, (list, tuple)):
        return [_pl(y) for y in x]
    return x


def matches(text, pattern, flags=0):
    """re.match(pattern, text) decided symbolically"""
    from . import resym
    return resym.run("match", pattern, text, flags) is not None
