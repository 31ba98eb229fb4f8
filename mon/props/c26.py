# -*- coding: utf-8 -*-
"""C26: conversion into JSON serializable containers."""
import datetime
import json
import math
from collections import OrderedDict, defaultdict

import numpy as np
import scipy.sparse as ss

STRATA = ['dict', 'list', 'deep', 'arrays', 'report', 'large']
CASES = {'quick': 2500, 'thorough': 60000}
NEED = {'leaves compared': 20000, 'arrays compared': 3000,
        'sparse matrices compared': 500,
        'containers of derived types': 100,
        'containers of one kind of entries': 100}


class Thing(object):
    def __str__(self):
        return 'thing é'


def leaf(ctx):
    """(value, what should be found after conversion)"""
    r = ctx.rng
    m = r.randint(14)
    if m == 0:
        v = ctx.choice([0, -1, 10 ** 25, 7, -2 ** 63])
        return v, v
    if m == 1:
        v = ctx.choice([0.1, -1e300, 5e-324, float('inf'), float('nan'),
                        -0.0])
        return v, v
    if m == 2:
        v = ctx.coin()
        return v, v
    if m == 3:
        v = ctx.choice(['', 'a', 'é☃', 'None', '1', 'a"b\\c\n'])
        return v, v
    if m == 4:
        t = ctx.choice([np.int8, np.int16, np.int32, np.int64, np.uint8,
                        np.uint16, np.uint32, np.uint64, np.intc])
        info = np.iinfo(t)
        v = t(ctx.choice([info.min, info.max, 0, 1, info.max // 3]))
        return v, int(v)
    if m == 5:
        t = ctx.choice([np.float16, np.float32, np.float64])
        v = t(ctx.choice([0.1, -2.5, 65000., np.nan, np.inf, 1 / 3.]))
        return v, float(v)
    if m == 6:
        v = datetime.timedelta(seconds=r.randint(1000), microseconds=17)
        return v, str(v)
    if m == 13:
        v = np.bool_(ctx.coin())
        return v, bool(v)
    if m == 7:
        v = ctx.choice([Thing(), np.ndarray, dict, len,
                        datetime.datetime(2017, 12, 25, 3)])
        return v, str(v)
    if m <= 10:
        return array(ctx)
    a = r.randint(-3, 3, (r.randint(1, 5), r.randint(1, 5)))
    a = a.astype(ctx.choice([float, np.int64, np.float32, np.int32]))
    ctx.obs('sparse matrices compared')
    v = ctx.choice([ss.csr_matrix, ss.csc_matrix, ss.coo_matrix,
                    ss.lil_matrix, ss.dok_matrix])(a)
    return v, a.tolist()


def array(ctx):
    r = ctx.rng
    ctx.obs('arrays compared')
    shape = tuple(r.randint(0, 4, r.randint(1, 4)))
    if ctx.coin(.1):
        shape = ()
    elif ctx.coin(.01):
        # longer than what is printed in full
        shape = ctx.choice([(1001,), (1500,), (40, 60), (12000,), (3, 2000)])
    t = ctx.choice(['f8', 'f4', 'f2', 'i8', 'i1', 'u8', 'U3', 'O', 'bool',
                    'M8[s]'])
    n = int(np.prod(shape))
    if t == 'O':
        v = np.empty(n, dtype=object)
        w = np.empty(n, dtype=object)
        for i in range(n):
            x = ctx.choice([np.int64(3), np.float32(.1), 'x', 2.5, Thing(),
                            np.bool_(False), True,
                            datetime.timedelta(3)])
            v[i] = x
            w[i] = (x.item() if isinstance(x, np.generic) else
                    x if isinstance(x, (str, float, bool)) else str(x))
        if shape == ():
            return v.reshape(shape), w[0]
        return v.reshape(shape), w.reshape(shape).tolist()
    if t == 'U3':
        a = np.array(['%d' % i for i in r.randint(0, 500, n)] or [''],
                     dtype='U3')[:n].reshape(shape)
    elif t == 'M8[s]':
        a = (np.datetime64('2001-01-01') + r.randint(0, 10 ** 6, n).astype(
            'm8[s]')).reshape(shape)
        return a, strings(a.tolist())
    elif t[0] == 'f':
        a = (r.randn(n) * 10 ** r.randint(-3, 4)).astype(t).reshape(shape)
        if n and ctx.coin(.3):
            a.ravel()[0] = ctx.choice([np.nan, np.inf])
    elif t == 'bool':
        a = (r.rand(n) < .5).reshape(shape)
    elif t == 'u8':
        a = (r.randint(0, 2 ** 62, n).astype('u8') * 3).reshape(shape)
    else:
        a = r.randint(-100, 100, n).astype(t).reshape(shape)
    m = r.randint(3)
    if m == 1:
        a = np.asfortranarray(a)
    elif m == 2 and a.ndim:
        a = a[::-1]
    return a, a.tolist()


def strings(x):
    if not isinstance(x, list):
        return str(x)
    return [strings(i) if isinstance(i, list) else str(i) for i in x]


class ListOfResults(list):
    pass


class DictOfResults(dict):
    pass


def alike(ctx, n):
    r = ctx.rng
    m = ctx.choice(['i8', 'u8', 'i4', 'f8', 'f4', 'bool', 'int', 'float',
                    'str', 'U'])
    if m == 'int':
        v = [int(i) * 10 ** 20 + 1 for i in r.randint(-9, 9, n)]
        return [(i, i) for i in v]
    if m == 'float':
        return [(i, i) for i in r.randn(n).tolist()]
    if m == 'str':
        return [(i, i) for i in ['%d' % i for i in r.randint(0, 9, n)]]
    if m == 'U':
        return [(np.str_(i), str(i)) for i in r.randint(0, 9, n)]
    if m == 'bool':
        return [(np.bool_(i), bool(i)) for i in r.randint(0, 2, n)]
    v = ((r.randn(n) * 100).astype(m) if m[0] == 'f' else
         (2 ** 62 + r.randint(0, 10 ** 6, n)).astype(m) if m[1] == '8' else
         r.randint(-2 ** 31, 2 ** 31 - 1, n).astype(m))
    return list(zip(list(v), v.tolist()))


def node(ctx, depth, kind=None):
    kind = kind or ctx.choice(['leaf', 'dict', 'list'], p=[.6, .2, .2])
    if depth <= 0 or kind == 'leaf':
        return array(ctx) if ctx.stratum == 'arrays' else leaf(ctx)
    n = ctx.randint(0, 6)
    if ctx.coin(.15):
        # entries of one kind, such as a row of counts or of identifiers
        kids = alike(ctx, n)
        ctx.obs('containers of one kind of entries')
    else:
        kids = [node(ctx, depth - 1) for _ in range(n)]
    if kind == 'list':
        got = [k[0] for k in kids]
        if ctx.coin(.15):
            got = ListOfResults(got)
            ctx.obs('containers of derived types')
        return got, [k[1] for k in kids]
    keys = ['k%d' % i if ctx.coin(.8) else 'é %d' % i for i in range(n)]
    got = {k: v[0] for k, v in zip(keys, kids)}
    if ctx.coin(.15):
        # reports assembled with the containers of the standard library
        got = ctx.choice([OrderedDict, DictOfResults,
                          lambda d: defaultdict(dict, d)])(got)
        ctx.obs('containers of derived types')
    return got, {k: v[1] for k, v in zip(keys, kids)}


def compare(ctx, got, want, path=()):
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and list(got) == list(want),
                  'keys of a container', path=path, got=got, want=want)
        for k in want:
            compare(ctx, got[k], want[k], path + (k,))
    elif isinstance(want, list):
        ctx.check(isinstance(got, list) and len(got) == len(want),
                  'length of a container', path=path, got=got, want=want)
        for i, w in enumerate(want):
            compare(ctx, got[i], w, path + (i,))
    else:
        ctx.obs('leaves compared')
        if isinstance(want, float) and math.isnan(want):
            ok = isinstance(got, float) and math.isnan(got)
        else:
            ok = got == want and isinstance(got, type(want)) and (
                isinstance(got, bool) == isinstance(want, bool))
            if ok and isinstance(want, float):
                ok = math.copysign(1, got) == math.copysign(1, want)
        ctx.check(ok, 'a value is altered by conversion', path=path,
                  got=got, want=want, types=(type(got), type(want)))


def case(ctx):
    from kamrecsys.utils import json_decodable
    st = ctx.stratum
    if st == 'report':
        from kamrecsys.utils import get_system_info, get_version_info
        from kamrecsys.metrics import (
            score_predictor_statistics, item_finder_statistics)
        n = ctx.randint(3, 40)
        x = {'s': get_system_info(ctx.coin()), 'v': get_version_info(),
             'p': score_predictor_statistics(
                 ctx.rng.randint(1, 6, n), ctx.rng.rand(n) * 5,
                 score_domain=(1, 5, 1)),
             'i': item_finder_statistics(
                 np.r_[0, 1, ctx.rng.randint(0, 2, n)], ctx.rng.rand(n + 2))}
        json_decodable(x)
        compare(ctx, json.loads(json.dumps(x)), x)
        ctx.sig('report', ctx.case)
        return
    depth = {'dict': 2, 'list': 2, 'deep': 6, 'arrays': 2, 'large': 1}[st]
    x, want = node(ctx, depth, 'list' if st == 'list' else
                   'dict' if st == 'dict' else ctx.choice(['dict', 'list']))
    if st == 'large':
        # very deep, and very long
        m = ctx.randint(0, 2)
        if m == 0:
            for i in range(ctx.randint(10, 120)):
                if ctx.coin():
                    x, want = {'k': x, 'm': i}, {'k': want, 'm': i}
                else:
                    x, want = [i, x], [i, want]
        elif m == 1:
            n = ctx.randint(200, 3000)
            kids = [leaf(ctx) for _ in range(20)]
            pick = [kids[i] for i in ctx.rng.randint(0, 20, n)]
            x, want = [p[0] for p in pick], [p[1] for p in pick]
            if ctx.coin():
                x = {'n%d' % i: v for i, v in enumerate(x)}
                want = {'n%d' % i: v for i, v in enumerate(want)}
        else:
            a = ctx.rng.rand(ctx.randint(1000, 5000))
            a = ctx.choice([a, (a * 1e4).astype('i4'),
                            a[:1000].reshape(2, -1), a.astype('f4')])
            x, want = {'a': a, 'b': x}, {'a': a.tolist(), 'b': want}
    arrays = []

    def collect(v):
        if isinstance(v, dict):
            for i in v.values():
                collect(i)
        elif isinstance(v, list):
            for i in v:
                collect(i)
        elif isinstance(v, np.ndarray):
            arrays.append((v, v.copy()))
        elif ss.issparse(v):
            arrays.append((v, v.toarray()))
    collect(x)
    ctx.note(want=want)
    json_decodable(x)
    compare(ctx, x, want)
    text = json.dumps(x)
    back = json.loads(text)
    compare(ctx, back, want)
    for a, b in arrays:
        ctx.equal(a.toarray() if ss.issparse(a) else a, b,
                  'an array of the caller is modified')
    json_decodable(x)
    compare(ctx, x, want)
    ctx.sig(text)
