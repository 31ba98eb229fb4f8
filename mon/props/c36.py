# -*- coding: utf-8 -*-
"""C36: options of recommenders can be read, changed and cloned"""
import copy

import numpy as np
from sklearn.base import clone

from .. import core, models
from .c11 import ATTR, same_model

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('read', 'change', 'change', 'grid', 'clone', 'clone',
                    'generator', 'report')] + ['user/clone']
CASES = {'quick': 1230, 'thorough': 15000}
NEED = {'parameters read': 900, 'changed models compared': 400,
        'clones compared': 400, 'generators compared': 80,
        'unknown options refused': 80, 'reports detached': 80}
RULE = ('random options of every recommender, read back, changed by name or '
        'by attribute before and between fits, and cloned before and after '
        'fits; distinct = different (model, options, changes, data)')

DEFAULT = {'PMF': {'C': 1.0, 'k': 1, 'random_state': None},
           'LogisticPMF': {'C': 1.0, 'k': 1, 'random_state': None},
           'ImplicitLogisticPMF': {'C': 1.0, 'k': 1, 'random_state': None},
           'PLSA': {'k': 1, 'alpha': 1.0, 'use_expectation': True,
                    'random_state': None}}
DEFAULT['PLSAmode'] = DEFAULT['PLSA']
_user = None


def user():
    """a recommender that a user derived, with an option of its own"""
    global _user
    if _user is None:
        from kamrecsys.score_predictor import BaseScorePredictor

        class Shrunk(BaseScorePredictor):

            def __init__(self, shrink=1.0, random_state=None):
                super(Shrunk, self).__init__(random_state=random_state)
                self.shrink = shrink
                self.mean_ = None

            def fit(self, data, event_index=(0, 1)):
                super(Shrunk, self).fit(data, event_index)
                self.mean_ = (self.shrink * np.mean(self.get_score()) +
                              self._rng.rand())
                self.remove_data()

            def raw_predict(self, ev):
                return np.tile(self.mean_, len(ev))

        _user = Shrunk
    return _user


def documented(kind, p):
    return {k: p.get(k, v) for k, v in DEFAULT[kind].items()}


def check_params(ctx, rec, kind, p, msg):
    want = documented(kind, p)
    for deep in (True, False):
        got = rec.get_params(deep=deep)
        for k, v in want.items():
            ctx.check(k in got and (got[k] is v or got[k] == v),
                      msg, option=k, got=got.get(k, 'nothing'), want=v)
    ctx.obs('parameters read')


def unfitted(ctx, rec, msg):
    for name in ATTR:
        ctx.check(getattr(rec, name, None) is None, msg, name=name)
    ctx.check(rec.eid is None and rec.iid is None and rec.n_objects is None,
              msg + ': it knows objects')


def some(ctx, p):
    """a part of the options"""
    return {k: v for k, v in p.items() if ctx.coin(.7)}


def apply(ctx, rec, p, new):
    """options changed in one of the ways that users have"""
    new = {k: v for k, v in new.items()}
    if ctx.coin():
        ctx.check(rec.set_params(**new) is rec,
                  'set_params does not return the recommender')
    else:
        for k, v in new.items():
            if ctx.coin():
                setattr(rec, k, v)
            else:
                rec.set_params(**{k: v})
    p.update(new)


def options(ctx, kind):
    new = models.params(ctx, kind)
    new = {k: new[k] for k in DEFAULT[kind] if k in new}
    if 'C' in new:
        new['C'] = float(new['C'])
    if 'use_expectation' in new:
        new['use_expectation'] = ctx.coin()
    return new


def compare(ctx, rec, kind, p, data, ref, msg, **kw):
    """a fit of rec is that of a new recommender"""
    fresh = models.build(kind, copy.deepcopy(p))
    rec.fit(data)
    fresh.fit(data)
    same_model(ctx, rec, fresh, msg, params=p, **kw)
    q, _ = models.queries(ctx, ref, n=ctx.randint(1, 8))
    ctx.close(rec.predict(q), fresh.predict(q), msg + ': predictions',
              rtol=1e-12, atol=1e-300, params=p, **kw)
    return q


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    if kind == 'user':
        return users(ctx)
    data, ref = models.training(ctx, kind, n=ctx.randint(2, 40))
    p = models.params(ctx, kind, maxiter=ctx.choice([1, 2, 5]))
    hist = []
    if mode == 'read':
        p = {k: v for k, v in p.items()
             if k not in DEFAULT[kind] or ctx.coin()}
        rec = models.build(kind, p)
        check_params(ctx, rec, kind, p, 'the options given are not reported')
        if ctx.coin():
            rec.fit(data)
            check_params(ctx, rec, kind, p, 'options changed by a fit')
        for bad in ctx.rng.permutation(['c', 'K', 'lambda', 'mu_', 'fit'])[:2]:
            ctx.raises(ValueError, lambda: rec.set_params(**{bad: 1}),
                       'an unknown option is accepted', option=bad)
            ctx.obs('unknown options refused')
        check_params(ctx, rec, kind, p, 'options changed by a refused one')
    elif mode == 'change':
        rec = models.build(kind, p)
        for _ in range(ctx.randint(1, 3)):
            m = ctx.randint(0, 3)
            if m == 0:
                d, r2 = models.training(ctx, kind)
                rec.fit(d)
                hist.append('fit')
            elif m == 1:
                rec.fit(data)
                hist.append('fit same')
            new = some(ctx, options(ctx, kind))
            apply(ctx, rec, p, new)
            hist.append(sorted(new))
            check_params(ctx, rec, kind, p, 'changed options are not reported')
        compare(ctx, rec, kind, p, data, ref,
                'changed options do not train what they would in a new '
                'recommender', history=hist)
        ctx.obs('changed models compared')
    elif mode == 'grid':
        # a search over a grid with one recommender
        rec = models.build(kind, p)
        for _ in range(ctx.randint(2, 4)):
            new = options(ctx, kind)
            rec.set_params(**new)
            p.update(new)
            compare(ctx, rec, kind, p, data, ref,
                    'a search with one recommender differs from one with '
                    'new ones')
            ctx.obs('changed models compared')
    elif mode == 'clone':
        rec = models.build(kind, p)
        q = None
        if ctx.coin(.6):
            rec.fit(data)
            q, _ = models.queries(ctx, ref)
            hist.append('fit')
            y = rec.predict(q)
        if ctx.coin(.4):
            new = some(ctx, options(ctx, kind))
            if kind.startswith('PLSA') and q is not None:
                new.pop('use_expectation', None)
            apply(ctx, rec, p, new)
            hist.append(sorted(new))
        image = core.freeze(rec)
        c = clone(rec)
        ctx.check(type(c) is type(rec), 'the clone is of another class')
        unfitted(ctx, c, 'the clone is fitted')
        check_params(ctx, c, kind, p, 'options of a clone')
        d, r2 = data, ref
        if ctx.coin(.4):
            d, r2 = models.training(ctx, kind)
        compare(ctx, c, kind, p, d, r2, 'a clone trains another model',
                history=hist)
        c.set_params(k=p['k'] + 1)
        ctx.check(core.freeze(rec) == image,
                  'a clone changes the original', history=hist)
        if q is not None:
            ctx.equal(rec.predict(q), y, 'predictions of a cloned model')
        ctx.obs('clones compared')
    elif mode == 'report':
        # a report is a record, not the source of the options
        if not kind.startswith('PLSA') and ctx.coin():
            p['options'] = dict(p.get('options', {}), maxiter=None)
            p['tol'] = .1
            p.pop('maxiter', None)
            p.pop('method', None)
        rec = models.build(kind, p)
        rec.fit(data)
        rep = rec.fit_results_['optimizer_kwargs']
        from kamrecsys.utils import json_decodable
        for v in [rep] + list(rep.values()):
            if isinstance(v, dict) and ctx.coin():
                v['maxiter'] = 91
        json_decodable(rec.fit_results_)
        compare(ctx, rec, kind, p, data, ref,
                'a change of a report changes the next training')
        ctx.obs('reports detached')
    else:
        # generators: a clone has its own in the same state
        gen = np.random.RandomState(p['random_state'])
        gen.rand(ctx.randint(0, 5))
        p['random_state'] = gen
        start = copy.deepcopy(gen)
        rec = models.build(kind, p)
        ctx.check(rec.get_params()['random_state'] is gen,
                  'the generator given is not reported')
        c = clone(rec)
        p['random_state'] = start
        compare(ctx, c, kind, p, data, ref,
                'a clone trains from another state of the generator')
        ctx.check(core.same(gen.get_state()[1], start.get_state()[1]) and
                  gen.get_state()[2] == start.get_state()[2],
                  'a clone uses the generator of the original')
        ctx.obs('generators compared')
        ctx.obs('clones compared')
    ctx.sig(kind, mode, sorted(map(str, p.items())), ref.ev.tobytes(),
            str(hist))
    ctx.note(stratum=ctx.stratum, params=p, history=hist)


def users(ctx):
    cls = user()
    data, ref = models.training(ctx, 'PMF', n=ctx.randint(2, 40))
    p = {'shrink': float(ctx.choice([.5, 1, 2.25])),
         'random_state': ctx.randint(0, 99)}
    rec = cls(**p)
    if ctx.coin():
        rec.fit(data)
    if ctx.coin():
        p['shrink'] = 7.5
        rec.set_params(shrink=7.5)
    ctx.check(rec.get_params() == p, 'options of a recommender of a user',
              got=rec.get_params(), want=p)
    c = clone(rec)
    ctx.check(type(c) is cls and c.get_params() == p and c.mean_ is None,
              'a clone of a recommender of a user')
    c.fit(data)
    want = (p['shrink'] * np.mean(ref.score) +
            np.random.RandomState(p['random_state']).rand())
    ctx.close(c.predict(ref.ev[:1]), want, 'a clone trains another model',
              rtol=1e-12)
    ctx.obs('clones compared')
    ctx.obs('parameters read')
    ctx.sig('user', sorted(p.items()), ref.ev.tobytes())
