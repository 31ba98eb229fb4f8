# -*- coding: utf-8 -*-
"""C30: a model has no memory of what it was fitted to before"""
import numpy as np

from .. import core, gens, models
from .c11 import same_model

STRATA = [k + '/' + m for k in models.KINDS
          for m in ('same size', 'other data', 'failed fit', 'index',
                    'container')]
CASES = {'quick': 1200, 'thorough': 15000}
NEED = {'histories compared': 700, 'failed fits': 100,
        'containers compared': 80, 'interruptions injected': 50}
RULE = ('random histories of fits, failed or interrupted fits and predictions of '
        'one '
        'recommender, or of events and features of one container, ended by '
        'the same operation as a fresh object; distinct = different '
        '(model, parameters, data, history)')


def wide(ctx, kind):
    from kamrecsys.data import EventData, EventWithScoreData
    n = ctx.randint(4, 30)
    eo = ctx.choice([None, (0, 1, 1), (1, 0, 1), (1, 0, 0)])
    nt = 3 if eo is None else 2
    ev, _, _ = gens.gen_events(ctx, nt, eo, kind='sparse', n=n,
                               shape='small')
    if kind == 'ImplicitLogisticPMF':
        d = EventData(n_otypes=nt, event_otypes=eo)
        d.set_event(ev)
        return d, ev
    d = EventWithScoreData(n_otypes=nt, event_otypes=eo)
    dom = (0, 1, 1) if kind == 'LogisticPMF' else (1, 5, 1)
    sc = np.array(gens.gen_scores(ctx, dom, n), dtype=float)
    sc[0], sc[1] = dom[0], dom[1]
    d.set_event(ev, sc, score_domain=dom)
    return d, ev


def turned(data, ref):
    """the same events, of the items as users and the users as items"""
    d = type(data)()
    if ref.score is None:
        d.set_event(ref.ev[:, ::-1])
    else:
        d.set_event(ref.ev[:, ::-1], ref.score,
                    score_domain=tuple(ref.dom.tolist()))
    return d


def bad_fit(ctx, kind, rec, data, ref):
    """a fit that must not succeed; what it leaves must not matter"""
    if ctx.coin(.6):
        # one that is stopped by a user at any instant
        if ref.ev.shape[1] == 2 and ctx.coin():
            d = turned(data, ref)
        else:
            d, _ = models.training(ctx, kind)
        if not core.interrupted(ctx, lambda: rec.fit(d)):
            ctx.obs('uninterrupted fits')
        ctx.obs('failed fits')
        return
    if kind == 'LogisticPMF':
        d, _ = models.training(ctx, 'PMF', dom=(1, 5, 1))
    else:
        d, _ = models.training(ctx, kind)
    idx = (0, 1)
    if kind != 'LogisticPMF':
        idx = (0, ctx.choice([2, 7]))
    try:
        rec.fit(d, event_index=idx)
    except (ValueError, IndexError):
        ctx.obs('failed fits')
        return
    ctx.fail('training on illegal data or columns succeeded', index=idx)


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    if mode == 'container':
        return container(ctx)
    n = ctx.randint(2, 50)
    data, ref = models.training(ctx, kind, n=n)
    p = models.params(ctx, kind, maxiter=ctx.choice([1, 2, 5]))
    rec = models.build(kind, p)
    hist = []
    for _ in range(ctx.randint(1, 3)):
        if mode == 'same size':
            # other scores, or other order, of as many events and objects
            if ref.score is None:
                d = type(data)()
                d.set_event(ref.ev[ctx.rng.permutation(len(ref.ev))])
            else:
                d = type(data)()
                d.set_event(ref.ev, ref.score[ctx.rng.permutation(
                    len(ref.ev))], score_domain=tuple(ref.dom.tolist()))
            rec.fit(d)
            hist.append('fit')
        elif mode == 'failed fit' and ctx.coin(.7):
            bad_fit(ctx, kind, rec, data, ref)
            hist.append('failed')
            continue
        elif mode == 'index' and ctx.coin(.7):
            d, ev = wide(ctx, kind)
            ix = tuple(int(i) for i in ctx.rng.permutation(3)[:2])
            rec.fit(d, event_index=ix)
            np.ravel(rec.predict(ev))
            hist.append('index %s' % (ix,))
            continue
        else:
            d, r2 = models.training(ctx, kind)
            rec.fit(d)
            if ctx.coin():
                rec.predict(models.queries(ctx, r2)[0])
            hist.append('other')
    if mode == 'failed fit' and ('failed' not in hist or ctx.coin()):
        bad_fit(ctx, kind, rec, data, ref)
        hist.append('failed')
    if mode == 'failed fit' and ref.ev.shape[1] == 2 and ctx.coin():
        # the training of as many parameters, in another order, is the last
        core.interrupted(ctx, lambda: rec.fit(turned(data, ref)), top=3)
        hist.append('interrupted')
    idx = None
    if mode == 'index' and ctx.coin():
        idx = tuple(int(i) for i in ctx.rng.permutation(2))
    kw = {} if idx is None else {'event_index': idx}
    rec.fit(data, **kw)
    fresh = models.build(kind, p)
    fresh.fit(data, **kw)
    same_model(ctx, rec, fresh, 'a refitted model differs from a fresh one',
               history=hist, params=p)
    ctx.check(set(rec.fit_results_) == set(fresh.fit_results_),
              'results of fitting have other entries',
              got=set(rec.fit_results_) ^ set(fresh.fit_results_))
    q, _ = models.queries(ctx, ref)
    ctx.close(rec.predict(q), fresh.predict(q),
              'predictions of a refitted model', rtol=1e-12, atol=1e-300,
              history=hist)
    ctx.equal(rec.to_iid_event(q), fresh.to_iid_event(q),
              'internal ids of a refitted model', history=hist)
    for name in ('n_events', 's_event', 'n_otypes', 'n_score_levels'):
        if hasattr(fresh, name):
            ctx.check(getattr(rec, name) == getattr(fresh, name),
                      'attribute of a refitted model', name=name)
    for name in ('n_objects', 'event_otypes', 'event_index', 'score_domain'):
        if hasattr(fresh, name):
            ctx.equal(getattr(rec, name), getattr(fresh, name),
                      'attribute of a refitted model', name=name)
    ctx.obs('histories compared')
    ctx.sig(kind, sorted(map(str, p.items())), ref.ev.tobytes(), str(hist))
    ctx.note(stratum=ctx.stratum, history=hist, params=p)


def container(ctx):
    """events set again make what they make in a new container"""
    scored = ctx.coin()
    data, ref = gens.gen_data(ctx, scored=scored, features=True)
    hist = []
    kw = dict(n_otypes=ref.n_otypes, event_otypes=tuple(ref.eo))
    for _ in range(ctx.randint(1, 3)):
        ev, pools, _ = gens.gen_events(ctx, ref.n_otypes, ref.eo)
        f = gens.gen_event_feature(ctx, len(ev))
        args = dict(event_feature=f)
        if scored:
            dom = gens.gen_domain(ctx)
            sc = gens.gen_scores(ctx, dom, len(ev))
            data.set_event(ev, sc, score_domain=dom, **args)
            if ctx.coin(.3):
                data.binarize_score()
                sc, dom = None, None
        else:
            data.set_event(ev, **args)
        r = gens.Ref(ref.n_otypes, ref.eo, ev)
        r.pools = pools
        for o in range(ref.n_otypes):
            if ctx.coin(.4):
                gens.add_feature(ctx, data, r, o)
        hist.append(len(ev))
    if ctx.coin(.3):
        # as many events as before, or the same ones in another order
        if ctx.coin():
            ev = ev[ctx.rng.permutation(len(ev))]
        else:
            ev, pools, _ = gens.gen_events(ctx, ref.n_otypes, ref.eo,
                                           n=len(ev))
    else:
        ev, pools, _ = gens.gen_events(ctx, ref.n_otypes, ref.eo)
    f = None if ctx.coin(.3) else gens.gen_event_feature(ctx, len(ev))
    fresh = type(data)(**kw)
    if scored:
        dom = gens.gen_domain(ctx)
        sc = gens.gen_scores(ctx, dom, len(ev))
        auto = ctx.coin(.3) and gens.regular(sc) is not None
        d = None if auto else dom
        data.set_event(ev, sc, score_domain=d, event_feature=f)
        fresh.set_event(ev, sc, score_domain=d, event_feature=f)
        r = gens.Ref(ref.n_otypes, ref.eo, ev, sc,
                     fresh.score_domain if auto else dom, f)
    else:
        data.set_event(ev, event_feature=f)
        fresh.set_event(ev, event_feature=f)
        r = gens.Ref(ref.n_otypes, ref.eo, ev, ef=f)
    gens.check_container(ctx, data, r)
    gens.check_container(ctx, fresh, r)
    ctx.check(core.freeze(data) == core.freeze(fresh),
              'a container remembers events that were replaced',
              history=hist, a=vars(data), b=vars(fresh))
    ctx.obs('containers compared')
    ctx.sig('container', ev.tobytes(), str(hist))
