# -*- coding: utf-8 -*-
"""C32: any history of operations on many containers and models"""
import copy
import pickle

import numpy as np

from .. import core, gens, models

STRATA = ['short', 'long', 'scored', 'features', 'errors', 'trained']
CASES = {'quick': 600, 'thorough': 9000}
NEED = {'steps observed': 8000, 'failed operations': 500, 'interruptions injected': 200,
        'container states inspected': 20000, 'models queried': 500}
RULE = ('random histories of up to 60 operations over a population of live '
        'containers and models: events, features, filters, binarisation, '
        'conversions, copies, pickles, training, and operations that fail or '
        'are interrupted at a random instant; '
        'after each step every live object is compared with its reference; '
        'distinct = different histories')


class World(object):
    def __init__(self):
        self.data = []      # (container, Ref)
        self.rec = []       # (model, queries, predictions)


def new(ctx, w, scored=None, features=None):
    scored = ctx.coin(.6) if scored is None else scored
    d, r = gens.gen_data(ctx, scored=scored, features=bool(features),
                         layout=ctx.choice(['default2', 'any']),
                         shape=ctx.choice(['tiny', 'small', 'single',
                                           'dense', 'skew']))
    w.data.append((d, r))
    return 'new'


def events(ctx, w, k):
    d, r = w.data[k]
    ev, pools, _ = gens.gen_events(ctx, r.n_otypes, r.eo,
                                   shape=ctx.choice(['tiny', 'small',
                                                     'dense']))
    f = gens.gen_event_feature(ctx, len(ev))
    if r.score is not None:
        dom = gens.gen_domain(ctx)
        sc = gens.gen_scores(ctx, dom, len(ev))
        d.set_event(ev, sc, score_domain=dom, event_feature=f)
        n = gens.Ref(r.n_otypes, r.eo, ev, sc, dom, f)
    else:
        d.set_event(ev, event_feature=f)
        n = gens.Ref(r.n_otypes, r.eo, ev, None, None, f)
    n.pools = pools
    w.data[k] = (d, n)
    return 'events'


def feature(ctx, w, k):
    d, r = w.data[k]
    gens.add_feature(ctx, d, r, ctx.randint(0, r.n_otypes - 1))
    return 'feature'


def filt(ctx, w, k):
    d, r = w.data[k]
    m = ctx.rng.rand(len(r.ev)) < ctx.choice([.3, .6, .9, 1., 0.])
    idx = np.flatnonzero(m)
    if ctx.coin(.3) and len(idx):
        idx = ctx.rng.choice(idx, ctx.randint(1, len(idx) + 2))
        m = idx
    n = d.filter_event(m)
    nr = r.take(idx)
    nr.pools = r.pools
    w.data.append((n, nr))
    return 'filter'


def binarize(ctx, w, k):
    d, r = w.data[k]
    if r.score is None or len(r.ev) == 0:
        return 'none'
    n = gens.Ref(r.n_otypes, r.eo, r.ev, r.score, r.dom, r.ef)
    n.feature, n.pools = list(r.feature), r.pools
    if ctx.coin():
        th = float(ctx.choice(list(np.asarray(r.score, dtype=float)))) + \
            ctx.choice([0, .25, -.25]) * r.dom[2]
        d.binarize_score(th)
    else:
        # no score is too near to the centre for rounding to matter
        th = (r.dom[0] + r.dom[1]) / 2.
        off = np.abs(np.asarray(r.score, dtype=float) - th)
        if np.any((off > 0) & (off < 1e-6 * r.dom[2])) or (
                np.any(off == 0) and
                th != (r.dom[1] - r.dom[0]) / 2 + r.dom[0]):
            return 'none'
        d.binarize_score()
    n.score = (np.asarray(r.score, dtype=float) > th).astype(int)
    n.dom = np.array([0., 1., 1.])
    w.data[k] = (d, n)
    return 'binarize'


def convert(ctx, w, k):
    d, r = w.data[k]
    if len(r.ev) == 0:
        return 'none'
    back = d.to_iid_event(r.ev)
    ctx.equal(back, d.event, 'internal ids of events')
    ctx.equal(d.to_eid_event(back), r.ev, 'external ids of events')
    i = ctx.randint(0, len(r.ev) - 1)
    ctx.equal(np.ravel(d.to_eid_event(d.event[i])), r.ev[i],
              'external ids of an event')
    for j, o in enumerate(r.eo):
        ctx.check(d.to_eid(o, d.event[i, j]) == r.ev[i, j] and
                  d.to_iid(o, r.ev[i, j]) == d.event[i, j],
                  'conversion of an object')
    return 'convert'


def digitize(ctx, w, k):
    d, r = w.data[k]
    if r.score is None or len(r.ev) == 0:
        return 'none'
    lv = np.asarray(d.get_score_levels(), dtype=float)
    ctx.close(lv, gens.domain_levels(r.dom), 'score levels')
    sc = np.asarray(r.score, dtype=float)
    near = np.min(np.abs(lv[None] - sc[:, None]), axis=1) < 1e-6 * r.dom[2]
    got = np.asarray(d.digitize_score())
    ctx.close(lv[got][near], sc[near], 'digitised scores', rtol=1e-6,
              atol=1e-6)
    return 'digitize'


def duplicate(ctx, w, k):
    d, r = w.data[k]
    how = ctx.randint(0, 2)
    if how == 0:
        c = copy.deepcopy(d)
    elif how == 1:
        c = pickle.loads(pickle.dumps(d))
    else:
        c = pickle.loads(pickle.dumps(d, protocol=2))
    n = gens.Ref(r.n_otypes, r.eo, r.ev, r.score, r.dom, r.ef)
    n.feature, n.pools = list(r.feature), r.pools
    w.data.append((c, n))
    return 'duplicate%d' % how


def fails(ctx, w, k):
    """an operation that must fail, and leave everything as it was"""
    d, r = w.data[k]
    before = core.freeze(d)
    op = ctx.randint(0, 9)
    o = ctx.randint(0, r.n_otypes - 1)
    n = len(r.ev)
    if op == 0:
        x = models.unknown_id(ctx, r, o)
        if x is None:
            return 'none'
        ctx.raises(ValueError, lambda: d.to_iid(o, x), 'an unknown object',
                   x=x)
    elif op == 1:
        ctx.raises(ValueError, lambda: d.to_eid(
            o, d.n_objects[o] + ctx.randint(0, 3)), 'a large internal id')
    elif op == 2:
        ctx.raises(ValueError, lambda: d.to_eid(o, -ctx.randint(1, 5)),
                   'a negative internal id')
    elif op == 3:
        ctx.raises(TypeError, lambda: d.to_eid_event(
            np.zeros((2, len(r.eo), 1), dtype=int)), 'an illegal shape')
    elif op == 4:
        ctx.raises(TypeError, lambda: d.to_iid_event(
            np.zeros((2, len(r.eo), 1), dtype=int)), 'an illegal shape')
    elif op == 5:
        ctx.raises((IndexError, ValueError), lambda: d.filter_event(
            np.ones(n + 3, dtype=bool)), 'a condition of another length')
    elif op == 6:
        ctx.raises((IndexError, ValueError), lambda: d.filter_event(
            np.array([n + 2])), 'an event out of range')
    elif op >= 8:
        from kamrecsys.item_finder import LogisticPMF
        if r.score is None or len(r.eo) < 2 or (
                r.dom.tolist() == [0, 1, 1] and
                len(np.unique(r.score)) == 2):
            return 'none'
        ctx.raises(ValueError, lambda: LogisticPMF(
            random_state=0, maxiter=1).fit(d), 'training on scores that are '
            'not binary')
    else:
        from kamrecsys.score_predictor import PMF
        if r.score is not None or len(r.eo) < 2:
            return 'none'
        ctx.raises(TypeError, lambda: PMF(random_state=0, maxiter=1).fit(d),
                   'training on data without scores')
    ctx.obs('failed operations')
    ctx.check(core.freeze(d) == before, 'a failed operation changed data',
              op=op)
    return 'fail%d' % op


def stops(ctx, w, k):
    """an operation that a user stops at any instant; none of them changes
    the object that it is called of"""
    d, r = w.data[k]
    if len(r.ev) < 2 or len(r.eo) < 2:
        return 'none'
    before = core.freeze(d)
    op = ctx.randint(0, 3)
    if op == 0:
        m = ctx.rng.rand(len(r.ev)) < ctx.choice([.3, .9])
        core.interrupted(ctx, lambda: d.filter_event(m), top=2.3)
    elif op == 1:
        core.interrupted(ctx, lambda: d.to_iid_event(r.ev), top=2)
    elif op == 2 and w.rec:
        rec, q = ctx.choice(w.rec)[:2]
        core.interrupted(ctx, lambda: rec.predict(q), top=2)
    else:
        kind = 'ImplicitLogisticPMF' if r.score is None else 'PMF'
        rec = models.build(kind, models.params(ctx, kind, maxiter=2))
        core.interrupted(ctx, lambda: rec.fit(d))
    ctx.check(core.freeze(d) == before, 'an interrupted operation changed '
              'data', op=op)
    ctx.obs('stopped operations')
    return 'stop%d' % op


def train(ctx, w, k):
    d, r = w.data[k]
    if len(r.ev) < 2 or len(r.eo) < 2 or r.ev.dtype.kind == 'U' and \
            len(w.rec) > 3:
        return 'none'
    kinds = ['ImplicitLogisticPMF']
    if r.score is not None:
        kinds += ['PMF', 'PLSA']
        if r.dom.tolist() == [0, 1, 1] and len(np.unique(r.score)) == 2:
            kinds += ['LogisticPMF'] * 2
    kind = ctx.choice(kinds)
    if kind == 'PLSA' and len(gens.domain_levels(r.dom)) > 40:
        return 'none'
    p = models.params(ctx, kind, maxiter=ctx.choice([1, 2, 3]))
    if w.rec and ctx.coin(.3):
        # train an existing model again
        i = ctx.randint(0, len(w.rec) - 1)
        rec = w.rec[i][0]
        if type(rec).__name__ == 'ImplicitLogisticPMF' or (
                type(rec).__name__ == 'PMF' and r.score is not None):
            w.rec.pop(i)
        else:
            rec = models.build(kind, p)
    else:
        rec = models.build(kind, p)
    rec.fit(d)
    q = np.array(r.ev[:6])
    w.rec.append((rec, q, np.array(rec.predict(q)), np.array(
        rec.to_iid_event(q))))
    ctx.equal(rec.to_iid_event(q), d.to_iid_event(q),
              'internal ids of a model and its data')
    return 'train ' + type(rec).__name__


def inspect(ctx, w):
    for d, r in w.data:
        gens.check_container(ctx, d, r)
    for rec, q, want, iid in w.rec:
        ctx.equal(rec.predict(q), want, 'predictions of a bystander')
        ctx.equal(rec.to_iid_event(q), iid, 'internal ids of a bystander')
        ctx.obs('models queried')


def case(ctx):
    st = ctx.stratum
    w = World()
    hist = [new(ctx, w, scored=True if st in ('scored', 'trained') else None,
                features=st == 'features')]
    n = ctx.randint(25, 60) if st == 'long' else ctx.randint(5, 25)
    p = {'events': 2, 'feature': 3, 'filt': 4, 'binarize': 1, 'convert': 2,
         'digitize': 2, 'duplicate': 1, 'fails': 1, 'train': 1, 'new': 1,
         'stops': 1}
    if st == 'features':
        p['feature'] = 8
    if st == 'errors':
        p['fails'] = 15
        p['stops'] = 8
    if st == 'trained':
        p['train'] = 8
    names = sorted(p)
    prob = np.array([p[x] for x in names], dtype=float)
    for _ in range(n):
        op = names[ctx.rng.choice(len(names), p=prob / prob.sum())]
        if op == 'new':
            done = new(ctx, w, features=ctx.coin())
        else:
            done = globals()[op](ctx, w, ctx.randint(0, len(w.data) - 1))
        hist.append(done)
        ctx.obs('steps observed')
        try:
            inspect(ctx, w)
        except core.Violation as e:
            raise core.Violation('after %s: %s' % (hist, e))
        # objects are dropped, so that others outlive them
        while len(w.data) > 6:
            w.data.pop(ctx.randint(0, len(w.data) - 1))
        while len(w.rec) > 4:
            w.rec.pop(0)
    ctx.sig(tuple(hist), ctx.case)
    ctx.note(history=hist)
