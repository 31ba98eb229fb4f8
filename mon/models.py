# -*- coding: utf-8 -*-
"""
Recommenders built, fitted and observed through their public interface.
"""
from __future__ import annotations

import numpy as np

from . import gens

KINDS = ['PMF', 'PLSA', 'PLSAmode', 'LogisticPMF', 'ImplicitLogisticPMF']
MF = ['PMF', 'LogisticPMF', 'ImplicitLogisticPMF']
METHODS = ['CG', 'CG', 'L-BFGS-B', 'BFGS', 'TNC', 'Newton-CG', 'SLSQP',
           'Powell', 'trust-constr']


def classes():
    from kamrecsys.score_predictor import PMF, MultinomialPLSA
    from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF
    return {'PMF': PMF, 'PLSA': MultinomialPLSA, 'PLSAmode': MultinomialPLSA,
            'LogisticPMF': LogisticPMF,
            'ImplicitLogisticPMF': ImplicitLogisticPMF}


def params(ctx, kind, maxiter=None, seed=None):
    """constructor arguments"""
    p = {'k': ctx.choice([1, 1, 2, 2, 3, 3, 4, 5, 5, 9, 12, np.int64(3)])}
    p['random_state'] = (ctx.choice([0, ctx.randint(0, 10000)], p=[.1, .9])
                         if seed is None else seed)
    if maxiter is None:
        maxiter = ctx.choice([1, 2, 5, 20])
    if kind.startswith('PLSA'):
        p['alpha'] = ctx.choice([1.0, 0.1, 0.01, 2.5, 1, 1e-6, 50,
                                 np.float32(.5)])
        p['use_expectation'] = kind == 'PLSA'
        p['maxiter'] = maxiter
        if ctx.coin(.3):
            p['tol'] = ctx.choice([1e-3, 1e-8])
    else:
        p['C'] = ctx.choice([1.0, 0.1, 0.01, 10, 3, 1e-4, 1e-6, 0, 1000,
                             np.float64(.3), np.int64(2)])
        m = ctx.randint(0, 3)
        if m == 0:
            p['maxiter'] = maxiter
        elif m == 1:
            p['options'] = {'maxiter': maxiter}
        elif m == 2:
            p['options'] = {'maxiter': maxiter}
            method(ctx, p)
        else:
            p['maxiter'] = maxiter
            p['tol'] = ctx.choice([1e-3, 1e-5])
    return p


def method(ctx, p):
    """an optimiser; those of a cost that is quadratic or worse in the number
    of parameters are given few of them"""
    p['method'] = ctx.choice(METHODS)
    if p['method'] in ('BFGS', 'SLSQP', 'Powell', 'trust-constr'):
        p['k'] = min(p['k'], 2)
        p['options']['maxiter'] = min(p['options']['maxiter'], 5)


def build(kind, p):
    p = dict(p)
    if 'options' in p:
        p['options'] = dict(p['options'])
    return classes()[kind](**p)


def training(ctx, kind, layout='default2', idkind=None, dom=None, n=None,
             shape=None, pool=None):
    """data that the model accepts, and its Ref"""
    if kind == 'LogisticPMF':
        for _ in range(50):
            data, ref = gens.gen_data(
                ctx, layout=layout, kind=idkind, dom=(0, 1, 1),
                n=max(n or 0, 2) if n else ctx.randint(2, 60),
                shape=shape or ctx.choice(['small', 'dense', 'skew',
                                           'single', 'unique']), pool=pool)
            if len(np.unique(ref.score)) == 2:
                return data, ref
        sc = np.array(ref.score)
        sc[0], sc[-1] = 0, 1
        ref.score = sc
        data.set_event(ref.ev, sc, score_domain=(0, 1, 1),
                       event_feature=ref.ef)
        return data, ref
    if kind == 'ImplicitLogisticPMF':
        return gens.gen_data(ctx, scored=ctx.coin(.3), layout=layout,
                             kind=idkind, n=n, shape=shape or ctx.choice(
                                 ['tiny', 'small', 'single', 'dense',
                                  'skew']), pool=pool)
    if dom is None:
        dom = ctx.choice([(1, 5, 1), (0.5, 5.0, 0.5), (0, 1, 1),
                          (0., 4., 1.), (-2, 2, 1), (1, 10, 1)])
    return gens.gen_data(ctx, layout=layout, kind=idkind, dom=dom, n=n,
                         shape=shape, pool=pool)


def unknown_id(ctx, ref, o):
    """an id of the right type that never occurs in the training data"""
    have = ref.objects(o)
    dt = ref.ev.dtype
    for _ in range(200):
        if dt.kind == 'U':
            x = 'zz%d' % ctx.randint(0, 10 ** 6)
            x = x[:max(1, dt.itemsize // 4)]
        elif dt.kind == 'f':
            x = float(ctx.randint(-50, 5000)) / 4.
        elif dt.kind == 'u':
            x = ctx.randint(0, min(10 ** 6, int(np.iinfo(dt).max)))
        elif dt.itemsize < 8:
            info = np.iinfo(dt)
            x = ctx.randint(max(info.min, -30000), min(info.max, 30000))
        else:
            x = ctx.choice([ctx.randint(-10, 50), ctx.randint(-10 ** 9,
                                                              10 ** 9)])
        if x not in have:
            return x
    return None


def queries(ctx, ref, event_index=(0, 1), n=None, unknown=.25):
    """
    events in external ids, of the full width of an event, with a boolean
    array that tells which of their objects are known
    """
    n = ctx.size(ctx.randint(1, 25), p=.02, top=5000) if n is None else n
    if n > 100:
        q, known = queries(ctx, ref, event_index, n=60, unknown=unknown)
        pick = ctx.rng.randint(0, 60, n)
        return q[pick], known[pick]
    s = len(ref.eo)
    rows, known = [], np.ones((n, s), dtype=bool)
    for i in range(n):
        row = []
        for j, o in enumerate(ref.eo):
            x = None
            if ctx.coin(unknown):
                x = unknown_id(ctx, ref, o)
            if x is None:
                ids = ref.ev[:, j] if ctx.coin(.8) else np.array(
                    sorted(ref.objects(o)), dtype=ref.ev.dtype)
                x = ids[ctx.randint(0, len(ids) - 1)].item()
            else:
                known[i, j] = False
            row.append(x)
        rows.append(row)
    dt = ref.ev.dtype
    if dt.kind == 'U':
        q = np.array(rows)
    else:
        q = np.array(rows, dtype=dt)
        if dt.kind in 'iu' and ctx.coin(.12) and np.all(
                np.abs(q.astype(float)) < 2 ** 36):
            # real numbers, of which those next to ids are not known
            q = q.astype(float)
            for i in range(n):
                if ctx.coin(.5):
                    j = ctx.randint(0, s - 1)
                    q[i, j] += ctx.choice([.5, .25, -.25, 1e-4])
                    known[i, j] = False
    return q, known


def as_list(q):
    """lists, where numpy reads the same values from them"""
    x = q.tolist()
    return x if np.array_equal(np.array(x), q) and (
        np.array(x).dtype.kind == q.dtype.kind or q.dtype.kind != 'u' or
        np.array(x).dtype.kind == 'i') else q


def lookup(rec, ref_o_position, x):
    """internal id by the public table of a recommender, or None"""
    try:
        return int(rec.to_iid(ref_o_position, x))
    except ValueError:
        return None


def iids(rec, q, event_index=(0, 1)):
    """internal ids of selected elements; -1 for unknown objects"""
    out = np.empty((len(q), len(event_index)), dtype=int)
    for c, j in enumerate(event_index):
        o = rec.event_otypes[j]
        for i in range(len(q)):
            k = lookup(rec, o, q[i, j])
            out[i, c] = -1 if k is None else k
    return out


def sigmoid(x):
    x = np.asarray(x, dtype=float)
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def mf_reference(rec, kind, iid):
    """documented formula; unknown objects contribute nothing"""
    out = np.empty(len(iid))
    mu = float(np.asarray(rec.mu_).ravel()[0])
    for n, (u, i) in enumerate(iid):
        s = mu
        if u >= 0:
            s += rec.bu_[u]
        if i >= 0:
            s += rec.bi_[i]
        if u >= 0 and i >= 0:
            s += float(np.dot(rec.p_[u], rec.q_[i]))
        out[n] = s
    return out if kind == 'PMF' else sigmoid(out)


def plsa_reference(rec, iid, levels, mode):
    """posterior expectation (or the posterior itself for a mode)"""
    pz, px, py, pr = (np.asarray(rec.pZ_), np.asarray(rec.pXgZ_),
                      np.asarray(rec.pYgZ_), np.asarray(rec.pRgZ_))
    post = np.empty((len(iid), len(levels)))
    for n, (u, i) in enumerate(iid):
        w = pz.copy()
        if u >= 0:
            w = w * px[u]
        if i >= 0:
            w = w * py[i]
        p = pr.dot(w)
        post[n] = p / p.sum()
    return post if mode else post.dot(levels)
