"""C10: matrix factorisation predictions follow the documented formula"""
import numpy as np
from .. import gens, models

STRATA = [k + '/' + m for k in models.MF
          for m in ('plain', 'layout', 'all unknown', 'extreme', 'mono',
                    'sparse pool')]
CASES = {'quick': 1800, 'thorough': 30000}
NEED = {'predictions compared': 20000, 'both unknown': 1000,
        'one unknown': 5000}
RULE = ('the three matrix factorisation models, 1-5 factors, all id kinds and '
        'event layouts, strongly and weakly regularised; distinct = different '
        '(model, parameters, data, queries)')


def vast(ctx, kind):
    """more objects and queries than 16 bits count"""
    data, ev, obj, big = gens.vast(ctx, (1, 5, 1) if kind == 'PMF' else
                                   (0, 1, 1))
    rec = models.build(kind, dict(k=ctx.randint(1, 2), C=.1, maxiter=2,
                                  random_state=ctx.randint(0, 9)))
    rec.fit(data)
    q = np.array(ev)
    bad = ctx.rng.rand(*q.shape) < .1
    q[bad] = -10 ** 6
    iid = np.empty(q.shape, dtype=int)
    for o in range(2):
        iid[:, o] = np.searchsorted(obj[o], q[:, o])
    iid[bad] = -1
    got = np.asarray(rec.predict(q), dtype=float)
    ctx.check(np.allclose(got, models.mf_reference(rec, kind, iid),
                          rtol=1e-7, atol=1e-9),
              'predictions for many objects are not those of the formula')
    ctx.obs('predictions compared', len(q))
    ctx.sig('vast', kind, len(q))


def case(ctx):
    kind, mode = ctx.stratum.split('/')
    r = ctx.rng
    if kind != 'ImplicitLogisticPMF' and ctx.coin(.003):
        return vast(ctx, kind)
    ei = (0, 1)
    kw = {}
    if mode == 'mono':
        kw = dict(shape='single')
    elif mode == 'sparse pool':
        kw = dict(shape='unique')
    if mode == 'layout':
        while True:
            data, ref = models.training(ctx, kind, layout='any')
            if len(ref.eo) >= 2:
                break
        ei = tuple(int(i) for i in r.permutation(len(ref.eo))[:2])
    else:
        data, ref = models.training(ctx, kind, **kw)
    p = models.params(ctx, kind)
    if mode == 'extreme':
        p['C'] = ctx.choice([1e-8, 1e-4, 1e4])
    rec = models.build(kind, p)
    rec.fit(data, event_index=ei)
    nu = len(ref.objects(ref.eo[ei[0]]))
    ni = len(ref.objects(ref.eo[ei[1]]))
    k = p['k']
    ctx.check(np.shape(rec.mu_) in ((), (1,)) and
              np.ndim(rec.bu_) == 1 and len(rec.bu_) >= nu and
              np.ndim(rec.bi_) == 1 and len(rec.bi_) >= ni and
              np.ndim(rec.p_) == 2 and np.shape(rec.p_)[1] == k and
              len(rec.p_) >= nu and np.ndim(rec.q_) == 2 and
              np.shape(rec.q_)[1] == k and len(rec.q_) >= ni,
              'shapes of parameters', bu=np.shape(rec.bu_),
              bi=np.shape(rec.bi_), p=np.shape(rec.p_), q=np.shape(rec.q_),
              nu=nu, ni=ni, k=k)
    for name in ('mu_', 'bu_', 'bi_', 'p_', 'q_'):
        ctx.check(np.all(np.isfinite(getattr(rec, name))),
                  'parameters are not finite', name=name)
    q, known = models.queries(ctx, ref, n=ctx.size(ctx.randint(2, 40), p=.03,
                                                 top=5000),
                              unknown=1. if mode == 'all unknown' else .3)
    iid = models.iids(rec, q, ei)
    ctx.equal(iid >= 0, known[:, list(ei)],
              'known objects are not those of training data')
    want = models.mf_reference(rec, kind, iid)
    got = np.asarray(rec.predict(q), dtype=float)
    ctx.close(got, want, 'predictions are not those of the formula',
              queries=q, rtol=1e-7, atol=1e-9)
    if kind != 'PMF':
        ctx.check(np.all((got > 0) & (got < 1)),
                  'a probability is not between zero and one', got=got)
    nk = (iid >= 0).sum(axis=1)
    both = np.flatnonzero(nk == 0)
    if len(both):
        mu = float(np.ravel(rec.mu_)[0])
        ctx.close(got[both], np.full(len(both), mu if kind == 'PMF' else
                                     models.sigmoid(mu)),
                  'an event of two unknown objects is not the global bias',
                  rtol=1e-7)
    ctx.obs('predictions compared', len(q))
    ctx.obs('both unknown', len(both))
    ctx.obs('one unknown', (nk == 1).sum())
    ctx.sig(kind, sorted(map(str, p.items())), q.tobytes(), ref.ev.tobytes())
    ctx.note(stratum=ctx.stratum, params=p, events=ref.ev[:3], query=q[:3],
             prediction=got[:3])
